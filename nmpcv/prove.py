"""Discharge of proof obligations: quantified facts are instantiated on ground terms (array-property
style), matrix equations are closed under multiplication by the contexts that occur, then z3 decides.
cvc5 re-decides the same SMT-LIB query when cross-checking is on."""
import time, itertools
from fractions import Fraction
import z3
from . import terms as tm
from .terms import *


class Forall:
    """universally quantified fact over Int constants vs: guard => body (body: list of z3 Bool)"""
    __slots__ = ('vs', 'guard', 'body', 'name', '_pats')

    def __init__(s, vs, guard, body, name=''):
        s.vs = list(vs)
        s.guard = guard if not isinstance(guard, (list, tuple)) else z3.And(*guard)
        s.body = list(body) if isinstance(body, (list, tuple)) else [body]
        s.name = name
        s._pats = None

    def subst(s, pairs):
        # bound variables are globally fresh constants, so capture cannot happen
        return Forall(s.vs, z3.substitute(s.guard, *pairs), [z3.substitute(b, *pairs) for b in s.body], s.name)

    def inst(s, vals):
        pairs = list(zip(s.vs, vals))
        g = z3.substitute(s.guard, *pairs)
        return [z3.Implies(g, z3.substitute(b, *pairs)) for b in s.body]

    def skolem(s, fresh):
        pairs = [(v, fresh(str(v))) for v in s.vs]
        return z3.substitute(s.guard, *pairs), [z3.substitute(b, *pairs) for b in s.body]

    def __repr__(s):
        return f'∀{s.vs}. {s.guard} => {s.body}'


class Stats:
    def __init__(s):
        s.queries = 0
        s.time = 0.0
        s.cvc5 = 0
        s.cvc5_time = 0.0
        s.cvc5_disagree = []
        s.unknown = 0


STATS = Stats()
TIMEOUT = 8000
CROSS = False

_dcache = {}


def diffconst(a, b):
    """a-b if it is an integer constant else None"""
    p = s_add(ipoly(a), ipoly(b), -1)
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def deep(t, dist=frozenset()):
    """canonical form everywhere, resolving select-over-store where indices are decided"""
    key = (t.get_id(), dist)
    if key in _dcache:
        return _dcache[key][0]
    r = _deep(t, dist)
    _dcache[key] = (r, t)
    return r


def pairkey(a, b):
    x, y = a.get_id(), b.get_id()
    return (x, y) if x < y else (y, x)


def _deep(t, dist):
    if z3.is_var(t) or z3.is_quantifier(t):
        return t
    ch = t.children()
    if not ch:
        return t
    k = t.decl().kind()
    ch = [deep(c, dist) for c in ch]
    if k == z3.Z3_OP_SELECT:
        a, j = ch[0], ch[1:]
        while a.decl().kind() == z3.Z3_OP_STORE:
            n = a.num_args()
            si = [a.arg(x) for x in range(1, n - 1)]
            ds = [diffconst(x, y) for x, y in zip(si, j)]
            if all(d == 0 for d in ds):
                return a.arg(n - 1)
            if any(d is not None and d != 0 for d in ds) or any(pairkey(x, y) in dist for x, y in zip(si, j)):
                a = a.arg(0)
                continue
            break
        if a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        return z3.Select(a, *j)
    if k == UNINT and not all(a.eq(b) for a, b in zip(ch, t.children())):
        # a resolved argument may have elements
        if t.decl().name() == 'at':
            return elem(ch[0], ch[1])
        if t.decl().name() == 'at2':
            return elem2(ch[0], ch[1], ch[2])
    r = t.decl()(*ch) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT) else rebuild(k, ch)
    if z3.is_real(r):
        if kind(r) == 's':
            return scanon(r)
        return mcanon(r)
    if z3.is_int(r) and k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return icanon(r)
    return r


def rebuild(k, ch):
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return z3.Distinct(*ch)


class N:
    """interned term with native children (z3's Python API is slow to walk)"""
    __slots__ = ('id', 't', 'k', 'nm', 'ch', 'isint', 'vars', 'key')


_nodes = {}
SELECT, STORE, ITE_K, UNINT = z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_ITE, z3.Z3_OP_UNINTERPRETED


def node(t):
    i = t.get_id()
    n = _nodes.get(i)
    if n is not None:
        return n
    n = N()
    n.id, n.t = i, t
    if z3.is_app(t):
        d = t.decl()
        n.k = d.kind()
        n.nm = d.name() if n.k == UNINT else None
        n.ch = tuple(node(c) for c in t.children())
    else:
        n.k, n.nm, n.ch = -1, None, ()
    n.isint = z3.is_int(t)
    if n.ch:
        n.vars = frozenset().union(*[c.vars for c in n.ch])
        if n.k == SELECT:
            n.key = ('sel', n.ch[0].id)
        elif n.k == UNINT:
            n.key = (n.nm, len(n.ch))
        else:
            n.key = None
    else:
        n.vars = frozenset([i]) if n.k == UNINT and '!sk' in n.nm else frozenset()
        n.key = None
    _nodes[i] = n
    return n


def subnodes(ts, seen=None):
    seen = {} if seen is None else seen
    new = []
    st = [node(t) for t in ts]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        new.append(x)
        st.extend(x.ch)
        if x.k == SELECT and x.ch[0].k in (STORE, ITE_K):
            a = x.ch[0]
            js = [c.t for c in x.ch[1:]]
            if a.k == STORE:
                st.append(node(z3.Select(a.ch[0].t, *js)))
            else:
                st.append(node(z3.Select(a.ch[1].t, *js)))
                st.append(node(z3.Select(a.ch[2].t, *js)))
    return new


def subterms(ts):
    seen = {}
    subnodes(ts, seen)
    return {i: x.t for i, x in seen.items()}


NOPAT = frozenset(['W', 'T', 'D', 'sc', 'cmax', 'cmin', 'vinv', 'cabs'])


def patterns(fa):
    """candidate trigger terms of a Forall: applications containing bound variables below a function"""
    if fa._pats is not None:
        return fa._pats
    vids = frozenset(v.get_id() for v in fa.vs)
    pats = []
    for x in subnodes([fa.guard] + fa.body):
        if not x.ch or not (x.vars & vids):
            continue
        if x.k == SELECT or (x.k == UNINT and x.nm not in NOPAT):
            if any(c.isint and (c.vars & vids) for c in x.ch):
                if x.k == SELECT and x.ch[0].k == STORE:
                    continue
                pats.append(x)
    fa._pats = (pats, vids)
    return fa._pats


_ip = {}


def ipl(n):
    r = _ip.get(n.id)
    if r is None:
        r = _ip[n.id] = ipoly(n.t)
    return r


def ieq(a, b):
    if a.id == b.id:
        return True
    if not (a.isint and b.isint):
        return False
    return ipl(a) == ipl(b)


def match(p, g, vids, b):
    """returns extended binding or None. b: dict var id -> node"""
    if not (p.vars & vids):
        if ieq(p, g):
            return b
        # elements of one sequence at indices that may coincide (the goal's arbitrary index): the instance is still valid
        if p.k == SELECT and g.k == SELECT and p.ch[0].id == g.ch[0].id and g.ch[1].k == UNINT and not g.ch[1].ch and '!sk' in g.ch[1].nm:
            return b
        return None
    if p.id in vids:
        if p.id in b:
            return b if ieq(b[p.id], g) else None
        nb = dict(b)
        nb[p.id] = g
        return nb
    if p.isint:
        ip = ipl(p)
        vs = [(m, c) for m, c in ip.items() if any(a in vids for a in m)]
        if len(vs) == 1 and len(vs[0][0]) == 1 and abs(vs[0][1]) == 1:
            v = vs[0][0][0]
            rest = {m: c for m, c in ip.items() if m != vs[0][0]}
            val = node(irender({m: c * int(vs[0][1]) for m, c in s_add(ipl(g), rest, -1).items()}))
            if v in b:
                return b if ieq(b[v], val) else None
            nb = dict(b)
            nb[v] = val
            return nb
        if p.k != UNINT and p.k != SELECT:
            return None
    if p.k != g.k or p.nm != g.nm or len(p.ch) != len(g.ch):
        return None
    for x, y in zip(p.ch, g.ch):
        b = match(x, y, vids, b)
        if b is None:
            return None
    return b


def instantiate(facts, foralls, goal_terms, rounds=3, cap=1500, extra_idx=()):
    """ground instances"""
    out = []
    done = set()
    seen = {}
    new = subnodes(list(facts) + list(goal_terms), seen)
    partials = [dict() for _ in foralls]
    pk = []
    for fa in foralls:
        pats, vids = patterns(fa)
        l = []
        for p in pats:
            if p.k == SELECT:
                l.append((p, ('sel', p.ch[0].id) if not (p.ch[0].vars & vids) else None))
            else:
                l.append((p, p.key))
        pk.append((l, vids))
    for rnd in range(rounds):
        idx = {}
        sels = []
        for x in new:
            if x.key is not None:
                idx.setdefault(x.key, []).append(x)
                if x.k == SELECT:
                    sels.append(x)
        added = []
        for fi, fa in enumerate(foralls):
            l, vids = pk[fi]
            bindings = []
            newp = []
            for p, key in l:
                for g in (idx.get(key, ()) if key is not None else sels):
                    b = match(p, g, vids, {})
                    if b is None:
                        continue
                    if len(b) == len(fa.vs):
                        bindings.append(b)
                    else:
                        kk = tuple(sorted((k, v.id) for k, v in b.items()))
                        if kk not in partials[fi]:
                            partials[fi][kk] = b
                            newp.append(b)
            if len(fa.vs) > 1 and newp and len(partials[fi]) <= 60:
                for b1 in newp:
                    for b2 in partials[fi].values():
                        if all(k not in b1 or ieq(b1[k], v) for k, v in b2.items()):
                            m = dict(b1)
                            m.update(b2)
                            if len(m) == len(fa.vs):
                                bindings.append(m)
            if rnd == 0:
                for v in extra_idx:
                    if len(fa.vs) == 1:
                        bindings.append({fa.vs[0].get_id(): node(v)})
            for b in bindings:
                vals = [icanon(b[v.get_id()].t) for v in fa.vs]
                key = (fi,) + tuple(v.get_id() for v in vals)
                if key in done:
                    continue
                done.add(key)
                added.extend(deep(f) for f in fa.inst(vals))
                if len(out) + len(added) > cap:
                    break
        if not added:
            break
        out.extend(added)
        new = subnodes(added, seen)
        if not new or len(out) > cap:
            break
    return out


# ---------- matrix-equation closure
def flatten(f, guard=()):
    k = f.decl().kind() if z3.is_app(f) else None
    if k == z3.Z3_OP_AND:
        for c in f.children():
            yield from flatten(c, guard)
    elif k == z3.Z3_OP_IMPLIES:
        yield from flatten(f.arg(1), guard + (f.arg(0),))
    else:
        yield guard, f


def words_of(p, isscalar):
    """words occurring in a polynomial: for scalar polynomials the words inside sc(...) atoms"""
    out = []
    if isscalar:
        for m in p:
            for a in m:
                t = atom(a)
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and tm.nm(t) == 'sc':
                    for (m2, w) in mpoly(t.arg(0)):
                        out.append((w, True))
    else:
        for (m, w) in p:
            if w:
                out.append((w, False))
    return out


def find_sub(v, w):
    n = len(w)
    for i in range(len(v) - n + 1):
        if v[i:i + n] == w:
            yield v[:i], v[i + n:]


def closure(facts, goal_terms, rounds=2, cap=400, directed=False, full=None):
    eqs = []   # (guard, mpoly)  matrix equations = 0
    pool = {}
    inv_pool = set()

    def scan_words(ts):
        """all matrix words in terms: real-sorted equalities' sides"""
        for x in subterms(ts).values():
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = tm.nm(x)
                if n == 'sc':
                    for (m, w) in mpoly(x.arg(0)):
                        pool.setdefault((w, True), 0)
                elif n in ('W', 'T'):
                    for (m, w) in mpoly(x):
                        pool.setdefault((w, False), 0)
    for f in facts:
        for g, a in flatten(f):
            if a.decl().kind() == z3.Z3_OP_EQ and z3.is_real(a.arg(0)):
                ks = {kind(a.arg(0)), kind(a.arg(1))}
                if ks != {'s'}:
                    try:
                        p = s_add(mpoly(a.arg(0)), mpoly(a.arg(1)), -1)
                    except ValueError:
                        continue
                    if p:
                        eqs.append((g, p))
    if not eqs:
        return []
    # goal-directed: only contexts reachable from the words of the goal
    scan_words(list(goal_terms) if directed else list(facts) + list(goal_terms))
    out = []
    done = set()
    for rnd in range(rounds):
        new = []
        cur = list(pool)
        # index eq by pivot words
        for ei, (g, p) in enumerate(eqs):
            pivots = {w for (m, w) in p if w}
            tp = None
            for w in pivots:
                for tr in (False, True):
                    pw = w_T(w) if tr else w
                    if tr and pw == w:
                        continue
                    for (v, issc) in cur:
                        if len(v) < len(pw) or (v == pw and not issc and not tr):
                            continue
                        for pre, post in find_sub(v, pw):
                            key = (ei, tr, pre, post, issc)
                            if key in done:
                                continue
                            done.add(key)
                            q = m_T(p) if tr else p
                            q = m_mul(m_mul({((), pre): Fraction(1)}, q), {((), post): Fraction(1)})
                            if issc:
                                s = scal(q)
                                eq = srender(s) == 0
                                for w2, sc_ in words_of(s, True):
                                    new.append((w2, True))
                            else:
                                eq = mrender(q) == 0
                                for (m, w2) in q:
                                    if w2:
                                        new.append((w2, False))
                            if g:
                                eq = z3.Implies(z3.And(*g), eq)
                            out.append(eq)
                            if len(out) > cap:
                                if full is not None:
                                    full.append(1)
                                return out
        ch = False
        for x in new:
            if x not in pool:
                pool[x] = rnd + 1
                ch = True
        if not ch:
            break
    return out


USE_COUNT = False


def sum_axioms(ts):
    """unfolding of the bounded sums that occur: empty sums are 0, sums whose ranges differ by one step"""
    sums = {}
    for x in subnodes(ts):
        if x.k == UNINT and x.nm in tm.SUMDEF and x.ch:
            sums.setdefault((x.nm, tuple(c.id for c in x.ch[2:])), []).append(x)
    out = []
    for key, xs in sums.items():
        for x in xs:
            lo, hi = x.ch[0].t, x.ch[1].t
            out.append(z3.Implies(hi <= lo, x.t == 0))
            for y in xs:
                if y is x:
                    continue
                ylo, yhi = y.ch[0].t, y.ch[1].t
                skel, args, j = tm.SUMDEF[x.nm]

                def el(k):
                    pr = [(z3.Const(f'__h{n}', c.t.sort()), c.t) for n, c in enumerate(x.ch[2:])] + [(tm._JV, k)]
                    return deep(z3.substitute(skel, *pr))
                if diffconst(lo, ylo) == 0 and diffconst(hi, yhi) == 1:
                    out.append(z3.Implies(yhi >= lo, x.t == y.t + el(yhi)))
                if diffconst(hi, yhi) == 0 and diffconst(ylo, lo) == 1:
                    out.append(z3.Implies(hi > lo, x.t == y.t + el(lo)))
    return out


AIB = z3.ArraySort(z3.IntSort(), z3.BoolSort())
NCNT = z3.Function('ncnt', AIB, z3.IntSort(), z3.IntSort())          # number of false entries below an index
NDIF = z3.Function('ndif', AIB, AIB, z3.IntSort(), z3.IntSort())     # an index below the bound where two arrays differ, if any


def cross_counts(ts):
    """counts of two arrays up to the same index (equal unless the arrays differ below it)"""
    cs = [x for x in subnodes(ts) if x.k == UNINT and x.nm == 'ncnt' and x.ch]
    arrs = {x.ch[0].id: x.t.arg(0) for x in cs}
    have = {(x.ch[0].id, x.ch[1].id) for x in cs}
    out = []
    if len(arrs) > 1:
        for x in cs:
            for k, b in arrs.items():
                if k != x.ch[0].id and (k, x.ch[1].id) not in have:
                    q = x.t.arg(1)
                    out += count_pair(x, node(NCNT(b, q)))
    return out


def count_axioms(ts, exact=True):
    """instances of the theory of counting the false entries of a boolean array (lemmas proved by count_lemmas)"""
    cs = [x for x in subnodes(ts) if x.k == UNINT and x.nm == 'ncnt' and x.ch]
    out = []
    for n, x in enumerate(cs):
        for y in cs[n + 1:]:
            k = (x.id, y.id)
            if k not in _cp:
                _cp[k] = (count_pair(x, y), x, y)
            out += _cp[k][0]
        if x.id not in _cp:
            q = x.t.arg(1)
            _cp[x.id] = ([x.t >= 0, z3.Implies(q <= 0, x.t == 0), z3.Implies(q >= 0, x.t <= q)], x)
        out += _cp[x.id][0]
    return out


_cp = {}


def count_pair(x, y):
    out = []
    a, q = x.t.arg(0), x.t.arg(1)
    b, p = y.t.arg(0), y.t.arg(1)
    if a.eq(b):
        if q.eq(p):
            return out
        for (u, i), (v, j) in (((x.t, q), (y.t, p)), ((y.t, p), (x.t, q))):
            d = diffconst(j, i)
            if d == 1:
                out.append(z3.Implies(i >= 0, v == u + z3.If(z3.Select(a, i), z3.IntVal(0), z3.IntVal(1))))
            if d is None or d > 0:
                out.append(z3.Implies(z3.And(i >= 0, i < j), z3.And(u <= v, v - u <= j - i, z3.Implies(z3.Not(z3.Select(a, i)), u + 1 <= v), z3.Implies(z3.Select(a, i), v - u <= j - i - 1))))
            if d is None:
                out.append(z3.Implies(i == j, u == v))
    elif diffconst(q, p) == 0:
        d = NDIF(a, b, q)
        out.append(z3.Or(x.t == y.t, z3.And(d >= 0, d < q, z3.Select(a, d) != z3.Select(b, d))))
    return out


def count_lemmas():
    """the counting lemmas follow by induction from ncnt(a,0)=0, ncnt(a,j+1)=ncnt(a,j)+[not a[j]] (base and step cases)"""
    a, b = z3.Const('cl_a', AIB), z3.Const('cl_b', AIB)
    i, j = z3.Ints('cl_i cl_j')
    one = lambda a, j: z3.If(z3.Select(a, j), z3.IntVal(0), z3.IntVal(1))
    C = lambda a, j: NCNT(a, j)
    step = lambda a: z3.Implies(j >= 0, C(a, j + 1) == C(a, j) + one(a, j))
    base = lambda a: C(a, 0) == 0
    rng = lambda j: z3.And(C(a, j) >= 0, C(a, j) <= j)
    mono = lambda j: z3.And(C(a, i) <= C(a, j), C(a, j) - C(a, i) <= j - i, z3.Implies(z3.Not(z3.Select(a, i)), C(a, i) + 1 <= C(a, j)), z3.Implies(z3.Select(a, i), C(a, j) - C(a, i) <= j - i - 1))
    gs = [('range base', z3.Implies(base(a), rng(z3.IntVal(0)))), ('range step', z3.Implies(z3.And(step(a), j >= 0, rng(j)), rng(j + 1))),
          ('monotone base', z3.Implies(z3.And(i >= 0, z3.Implies(i >= 0, C(a, i + 1) == C(a, i) + one(a, i))), mono(i + 1))),
          ('monotone step', z3.Implies(z3.And(step(a), i >= 0, j > i, mono(j)), mono(j + 1))),
          ('extensional step', z3.Implies(z3.And(step(a), step(b), j >= 0, C(a, j) == C(b, j), z3.Select(a, j) == z3.Select(b, j)), C(a, j + 1) == C(b, j + 1)))]
    out = []
    for n, g in gs:
        s = z3.Solver()
        s.add(z3.Not(g))
        out.append((n, s.check() == z3.unsat))
    return out


def elementwise(facts, goal, cap=150):
    """element equations of the vector equations whose sides have elements mentioned in the goal"""
    out = []
    eqs = None
    done = set()
    new = [goal]
    for rnd in range(3):
        ats = {}
        for x in subnodes(new):
            if x.k == UNINT and x.nm == 'at':
                ats.setdefault(x.ch[0].id, {})[x.ch[1].id] = x.ch[1].t
        if not ats:
            break
        if eqs is None:
            eqs = []
            for f in facts:
                for g, a in flatten(f):
                    if a.decl().kind() == z3.Z3_OP_EQ and z3.is_real(a.arg(0)) and 'v' in (kind(a.arg(0)), kind(a.arg(1))):
                        eqs.append((g, a, {n.id for t in (a.arg(0), a.arg(1)) for n in [node(t)] + list(node(t).ch)}))
        new = []
        for g, a, ids in eqs:
            for v in ids & set(ats):
                for kid, k in ats[v].items():
                    key = (a.get_id(), kid)
                    if key in done:
                        continue
                    done.add(key)
                    e = elem(a.arg(0), k) == elem(a.arg(1), k)
                    e = deep(e)
                    out.append(z3.Implies(z3.And(*g), e) if g else e)
                    new.append(e)
                    if len(out) > cap:
                        return out
        if not new:
            break
    return out


def eliminate(facts, goal):
    """matrix goal with the atoms it mentions eliminated by linear equations among the facts.
    Returns (goal', rewritten equations): goal' is equivalent to the goal under the facts."""
    g = s_add(mpoly(goal.arg(0)), mpoly(goal.arg(1)), -1)
    s, fs, memo = int_query(facts)
    gok = {}

    def entailed(guards):
        for x in guards:
            i = x.get_id()
            if i not in gok:
                s.push()
                s.add(lin(z3.Not(x)))
                gok[i] = s.check() == z3.unsat
                s.pop()
            if not gok[i]:
                return False
        return True
    eqs = []
    for f in facts:
        if isinstance(f, Forall):
            continue
        for gd, a in flatten(f):
            if a.decl().kind() == z3.Z3_OP_EQ and z3.is_real(a.arg(0)) and {kind(a.arg(0)), kind(a.arg(1))} != {'s'}:
                try:
                    p = s_add(mpoly(a.arg(0)), mpoly(a.arg(1)), -1)
                except ValueError:
                    continue
                if p and entailed(gd):
                    eqs.append(p)
    if not eqs:
        return None
    atoms = lambda p: {a for (m, w) in p for a, _ in w}

    def sub(p, x, d):
        out = {}
        for (m, w), c in p.items():
            if not any(a == x for a, _ in w):
                out = s_add(out, {(m, w): c})
                continue
            q = {(m, ()): c}
            for a, tr in w:
                if a == x:
                    q = m_mul(q, m_T(d) if tr else d)
                else:
                    q = m_mul(q, {((), ((a, tr),)): Fraction(1)})
            out = s_add(out, q)
            if len(out) > 400:
                return None
        return out
    steps = 0
    while steps < 25:
        ga = atoms(g)
        best = None
        for n, p in enumerate(eqs):
            for (m, w), c in p.items():
                if m == () and len(w) == 1 and w[0][0] in ga and not w[0][1]:
                    x = w[0][0]
                    if is_D(x) or sum(1 for (m2, w2) in p for a, _ in w2 if a == x) != 1 or x in {y for (m2, w2) in p for a, _ in w2 if is_D(a) for y in [dvec(a)]}:
                        continue
                    sc = len(p)
                    if best is None or sc < best[0]:
                        best = (sc, n, x, c, w)
        if best is None:
            break
        _, n, x, c, w = best
        p = eqs.pop(n)
        d = {k: -v / c for k, v in p.items() if k != ((), w)}
        # a vector atom may also occur as a diagonal matrix
        if any(is_D(a) and dvec(a) == x for a in ga):
            continue
        g2 = sub(g, x, d)
        if g2 is None:
            continue
        e2 = []
        for q in eqs:
            if any(is_D(a) and dvec(a) == x for a in atoms(q)):
                e2.append(q)
                continue
            q2 = sub(q, x, d)
            if q2:
                e2.append(q2)
            elif q2 is None:
                e2.append(q)
        g, eqs = g2, e2
        steps += 1
    if not steps:
        return None
    return mrender(g) == 0, [mrender(q) == 0 for q in eqs if q]


def unresolved(ts, mats=False):
    """(i,j) pairs of undecided select-over-store and ite conditions of matrix terms"""
    for x in subterms(ts).values():
        if not z3.is_app(x):
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_SELECT and x.arg(0).decl().kind() == z3.Z3_OP_STORE and not (mats and (not z3.is_real(x) or kind(x) == 's')):
            a = x.arg(0)
            n = a.num_args()
            for q in range(1, n - 1):
                i, j = a.arg(q), x.arg(q)
                if diffconst(i, j) is None:
                    return ('idx', i, j)
        if k == z3.Z3_OP_ITE and z3.is_real(x) and kind(x) != 's':
            return ('ite', x.arg(0), None)
        if k == z3.Z3_OP_ITE and z3.is_array(x):
            return ('ite', x.arg(0), None)
    return None


_skn = [0]


def fresh_int(nm_='k'):
    _skn[0] += 1
    return z3.Int(f'{nm_}!sk{_skn[0]}')


class Result:
    def __init__(s, ok, why='', model=None, unknown=False, query=None):
        s.ok, s.why, s.model, s.unknown, s.query = ok, why, model, unknown, query

    def __bool__(s):
        return s.ok


MUL = z3.Function('mul', R, R, R)
IMUL = z3.Function('imul', I, I, I)
_lin = {}


def lin(t):
    """nonlinear products as applications of an uninterpreted (congruent) function"""
    n = node(t)
    r = _lin.get(n.id)
    if r is not None:
        return r
    if not n.ch:
        r = t
    else:
        ch = [lin(c.t) for c in n.ch]
        if n.k == z3.Z3_OP_MUL:
            num = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            rest = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            if len(rest) > 1:
                rest.sort(key=lambda x: x.get_id())
                f = MUL if z3.is_real(t) else IMUL
                x = rest[0]
                for y in rest[1:]:
                    x = f(x, y)
                rest = [x]
            r = None
            for x in num + rest:
                r = x if r is None else r * x
        elif all(a.eq(b.t) for a, b in zip(ch, n.ch)):
            r = t
        elif n.k in (z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_DISTINCT):
            r = rebuild(n.k, ch)
        else:
            r = t.decl()(*ch)
    _lin[n.id] = r
    return r


_pure = {}


def pure_int(n):
    r = _pure.get(n.id)
    if r is None:
        srt = n.t.sort().kind()
        r = srt in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) and n.k not in (SELECT, z3.Z3_OP_MUL) and not (n.k == UNINT and n.ch) and all(pure_int(c) for c in n.ch)
        if n.k == z3.Z3_OP_MUL:
            r = all(pure_int(c) for c in n.ch) and sum(1 for c in n.ch if not z3.is_int_value(c.t)) <= 1
        _pure[n.id] = r
    return r


_iq = {}


def int_query(facts):
    """solver holding only the linear integer facts"""
    fs = [f for f in facts if not isinstance(f, Forall) and pure_int(node(f))]
    key = tuple(f.get_id() for f in fs)
    if key not in _iq:
        s = z3.Solver()
        s.set('timeout', 500)
        for f in fs:
            s.add(f)
        _iq[key] = (s, fs, {})
    return _iq[key]


def int_decide(facts, i, j):
    """1: i==j entailed, -1: i!=j entailed, 0: unknown (by the linear integer facts alone)"""
    s, fs, memo = int_query(facts)
    k = (i.get_id(), j.get_id())
    if k in memo:
        return memo[k][0]
    r = 0
    s.push()
    s.add(lin(i) == lin(j))
    if s.check() == z3.unsat:
        r = -1
    s.pop()
    if r == 0:
        s.push()
        s.add(lin(i) != lin(j))
        if s.check() == z3.unsat:
            r = 1
        s.pop()
    memo[k] = (r, i, j)
    return r


def prove(facts, goal, timeout=None, depth=0, closure_rounds=2, dist=frozenset(), inst_rounds=3, use_closure=True, nosplit=False):
    """facts: list of z3 Bool / Forall. goal: z3 Bool or Forall"""
    ground = [f for f in facts if not isinstance(f, Forall)]
    fas = [f for f in facts if isinstance(f, Forall)]
    if isinstance(goal, Forall):
        g, bs = goal.skolem(fresh_int)
        return prove(facts + [g], z3.And(*bs) if len(bs) != 1 else bs[0], timeout, depth, closure_rounds, dist, inst_rounds, use_closure, nosplit)
    goal = deep(goal, dist)
    if z3.is_true(goal):
        return Result(True)
    # split conjunctive goals / implications
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_AND:
        for c in goal.children():
            r = prove(facts, c, timeout, depth, closure_rounds, dist, inst_rounds, use_closure, nosplit)
            if not r:
                return r
        return Result(True)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        return prove(facts + [goal.arg(0)], goal.arg(1), timeout, depth, closure_rounds, dist, inst_rounds, use_closure, nosplit)
    if goal.decl().kind() == z3.Z3_OP_EQ and z3.is_real(goal.arg(0)) and goal.arg(0).eq(goal.arg(1)):
        return Result(True)
    if depth < 6 and not nosplit and goal.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        u = unresolved([goal], goal.decl().kind() != z3.Z3_OP_EQ)
        if u is not None and u[0] == 'idx':
            _, i, j = u
            dec = int_decide(facts, i, j)
            if dec == -1:
                return prove(facts, goal, timeout, depth, closure_rounds, dist | {pairkey(i, j)}, inst_rounds, use_closure)
            # case i == j: substitute a skolem/constant if possible
            eqf = i == j
            sub = None
            for a, b in ((j, i), (i, j)):
                pa = ipoly(a)
                for m, c in pa.items():
                    if len(m) == 1 and abs(c) == 1 and '!sk' in str(atom(m[0])) and z3.is_const(atom(m[0])) and m[0] not in [x for mm in ipoly(b) for x in mm]:
                        rest = {mm: cc for mm, cc in pa.items() if mm != m}
                        val = irender({mm: cc * int(c) for mm, cc in s_add(ipoly(b), rest, -1).items()})
                        sub = (atom(m[0]), val)
                        break
                if sub:
                    break
            if sub:
                f1 = [(f.subst([sub]) if isinstance(f, Forall) else z3.substitute(f, sub)) for f in facts]
                r = prove(f1 + [eqf], z3.substitute(goal, sub), timeout, depth + 1, closure_rounds, dist, inst_rounds, use_closure)
            else:
                r = prove(facts + [eqf], goal, timeout, depth + 1, closure_rounds, dist, inst_rounds, use_closure, nosplit=True)
            if not r or dec == 1:
                return r
            return prove(facts + [i != j], goal, timeout, depth + 1, closure_rounds, dist | {pairkey(i, j)}, inst_rounds, use_closure)
        if u is not None and u[0] == 'ite':
            c = u[1]
            for val in (True, False):
                s1 = [(c, z3.BoolVal(val))]
                f1 = facts + [c if val else z3.Not(c)]
                r = prove(f1, z3.simplify(z3.substitute(goal, *s1)) if not z3.is_array(goal.arg(0)) else z3.substitute(goal, *s1), timeout, depth + 1, closure_rounds, dist, inst_rounds, use_closure)
                if not r:
                    return r
            return Result(True)
    ground = [deep(f, dist) for f in ground]
    if USE_COUNT:
        ground = ground + count_axioms(ground + [goal])
    inst = instantiate(ground, [f for f in fas], [goal], rounds=inst_rounds)
    inst = [deep(f, dist) for f in inst]
    allf = ground + inst
    if USE_COUNT:
        cc = cross_counts(allf + [goal])
        if cc:
            allf = allf + cc
            have = {f.get_id() for f in allf}
            more = instantiate(cc, fas, [goal], rounds=1)
            allf = allf + [f for f in (deep(m, dist) for m in more) if f.get_id() not in have]
        allf = allf + count_axioms(allf + [goal])
    if tm.SUMDEF:
        sa = sum_axioms(allf + [goal])
        if sa:
            allf = allf + sa
    ew = elementwise(allf, goal)
    if ew:
        more = instantiate(ground + ew, [f for f in fas], [goal], rounds=inst_rounds)
        have = {f.get_id() for f in allf}
        allf = allf + ew + [f for f in (deep(m, dist) for m in more) if f.get_id() not in have]
    t0 = time.time()
    STATS.queries += 1
    s = z3.Solver()
    s.set('timeout', min(3000, int(timeout or TIMEOUT)))
    for f in allf:
        s.add(lin(f))
    s.add(lin(z3.Not(goal)))
    r = s.check()
    extra = []
    if r != z3.unsat and use_closure and goal.decl().kind() == z3.Z3_OP_EQ and z3.is_real(goal.arg(0)) and {kind(goal.arg(0)), kind(goal.arg(1))} != {'s'}:
        el = eliminate(allf, goal)
        if el is not None:
            g2, eq2 = el
            ex2 = closure(eq2, [g2], rounds=3, cap=250, directed=True)
            s.push()
            for f in eq2 + ex2:
                s.add(lin(f))
            s.add(lin(z3.Not(g2)))
            r = s.check()
            if r == z3.unsat:
                STATS.time += time.time() - t0
                if CROSS:
                    cross_check(s)
                return Result(True)
            s.pop()
    capped = []
    if len(inst) > 1500:
        capped.append(1)
    if r != z3.unsat and use_closure:
        extra = closure(allf, [goal], rounds=5, cap=250, directed=True)
        if extra:
            s.push()
            for f in extra:
                s.add(lin(f))
            r = s.check()
            if r != z3.unsat:
                s.pop()
    if r != z3.unsat and use_closure:
        extra = closure(allf, [goal], rounds=closure_rounds, full=capped)
        if extra:
            for f in extra:
                s.add(lin(f))
            r = s.check()
    if r != z3.unsat:
        nl = any(not lin(f).eq(f) for f in allf + extra + [goal])
        if nl or r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', int(timeout or TIMEOUT))
            for f in allf + extra:
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
    STATS.time += time.time() - t0
    if r == z3.unsat:
        if CROSS:
            cross_check(s)
        return Result(True)
    if r == z3.unknown:
        # retry with nonlinear tactic
        t0 = time.time()
        s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        s2.set('timeout', int(timeout or TIMEOUT))
        s2.add(s.assertions())
        r = s2.check()
        STATS.time += time.time() - t0
        if r == z3.unsat:
            return Result(True)
        if r == z3.unknown:
            STATS.unknown += 1
            return Result(False, 'unknown: ' + s.reason_unknown(), None, True, s)
    if capped:
        # instances or equation contexts were left out: the model need not be one of the full obligation
        STATS.unknown += 1
        return Result(False, 'unknown: instantiation cut off', None, True, s)
    m = None
    try:
        m = s.model()
    except z3.Z3Exception:
        pass
    return Result(False, 'sat', m, False, s)


def prove_split(facts, goal, r, closure_rounds=2):
    """second attempt at a goal about every element of a sequence: the element at an index that the code writes on its own (outside the
    loops) is a case of its own"""
    if not isinstance(goal, Forall) or len(goal.vs) != 1:
        return r
    sk = fresh_int(str(goal.vs[0]))
    g, bs = z3.substitute(goal.guard, (goal.vs[0], sk)), [z3.substitute(b, (goal.vs[0], sk)) for b in goal.body]
    idx = {}
    for f in facts:
        ts = [f.guard] + f.body if isinstance(f, Forall) else [f]
        vids = {v.get_id() for v in f.vs} if isinstance(f, Forall) else set()
        for x in subnodes(ts):
            if x.k == STORE and x.ch[1].isint and not (x.ch[1].vars & vids) and '!sk' not in str(x.ch[1].t):
                c = icanon(x.ch[1].t)
                idx.setdefault(c.get_id(), c)
    base = list(facts) + [g]
    idx = [i for i in idx.values() if int_decide(base, i, sk) != -1]
    if not idx or len(idx) > 4:
        return r
    dist = set()
    for i in idx:
        f1 = [(f.subst([(sk, i)]) if isinstance(f, Forall) else z3.substitute(f, (sk, i))) for f in base]
        for b in bs:
            if not prove(f1, deep(z3.substitute(b, (sk, i))), closure_rounds=closure_rounds):
                return r
        base = base + [sk != i]
        dist.add(pairkey(i, sk))
    for b in bs:
        r2 = prove(base, b, closure_rounds=closure_rounds, dist=frozenset(dist))
        if not r2:
            return r
    return Result(True)


def quick_prove(facts, goal):
    """cheap sufficient test with ground facts only"""
    if isinstance(goal, Forall):
        g, bs = goal.skolem(fresh_int)
        facts, goal = facts + [g], z3.And(*bs) if len(bs) != 1 else bs[0]
    goal = deep(goal)
    while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        facts = facts + [goal.arg(0)]
        goal = goal.arg(1)
    if z3.is_true(goal):
        return True
    STATS.queries += 1
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 300)
    for f in facts:
        if not isinstance(f, Forall):
            s.add(lin(deep(f)))
    s.add(lin(z3.Not(goal)))
    r = s.check() == z3.unsat
    STATS.time += time.time() - t0
    if r and CROSS:
        cross_check(s)
    return r


def cross_check(s):
    import subprocess, tempfile, os
    t0 = time.time()
    STATS.cvc5 += 1
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '-'], input=txt, capture_output=True, text=True, timeout=20)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else p.stderr[:100]
    except Exception as e:
        out = 'error ' + str(e)[:100]
    STATS.cvc5_time += time.time() - t0
    if out == 'sat':
        STATS.cvc5_disagree.append(txt[:2000])
    CROSS_RES[out if out in ('sat', 'unsat', 'unknown') else 'other'] = CROSS_RES.get(out if out in ('sat', 'unsat', 'unknown') else 'other', 0) + 1


CROSS_RES = {}


def feasible(ground, timeout=300):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in ground:
        if not isinstance(f, Forall):
            s.add(f)
    return s.check() != z3.unsat
