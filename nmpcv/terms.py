"""Terms: scalars and Eigen matrices as z3 Real terms with a polynomial (non-commutative) normal form.

A matrix is represented by the value of one fixed, linear functional phi of it that is injective on the
finitely many matrices of a query (it exists for every finite set of matrices), so a matrix equation is a
real equation and every ground formula refuted over the reals is refuted over matrices.  Products are the
uninterpreted W(.,.), transposition T(.), both applied to atoms only: linearity, associativity,
(AB)'=B'A' are decided by the normal form, not by the solver.
"""
from fractions import Fraction
import z3

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
AR = z3.ArraySort(I, R)   # Int -> Real
AI = z3.ArraySort(I, I)
AB = z3.ArraySort(I, B)
A2 = z3.ArraySort(I, AR)

KIND = {}      # decl name -> 'm' (matrix) | 'v' (column vector) | 's' (scalar); default scalar
SYM = set()    # decl names (functions/arrays) whose values are symmetric matrices
_keep = []


def decl(name, kind, *sorts):
    if len(sorts) == 1:
        f = z3.Const(name, sorts[0])
    else:
        f = z3.Function(name, *sorts)
    KIND[name] = kind
    return f


W = decl('W', 'm', R, R, R)
T = decl('T', 'm', R, R)
D = decl('D', 'm', R, R)              # diagonal matrix of a vector
ID = decl('Id', 'm', R)
ONES = decl('ones', 'v', R)
SC = decl('sc', 's', R, R)            # 1x1 matrix -> scalar
AT = decl('at', 's', R, I, R)         # vector element
AT2 = decl('at2', 's', R, I, I, R)
COL = decl('col', 'v', R, I, R)
ROW = decl('row', 'v', R, I, R)       # row as a column vector
VOF = decl('vecof', 'v', AR, I, R)    # vector from its elements
COLSOF = decl('colsof', 'm', AR, I, R)   # matrix from its columns
ROWSOF = decl('rowsof', 'm', AR, I, R)   # matrix from its rows (as column vectors)
MOF = decl('matof', 'm', A2, I, I, R)    # matrix from its elements
CMAX = decl('cmax', 'v', R, R, R)
CMIN = decl('cmin', 'v', R, R, R)
CABS = decl('cabs', 'v', R, R)
VINV = decl('vinv', 'v', R, R)
VLOG = decl('vlog', 'v', R, R)
SEG = decl('seg', 'v', R, I, I, R)    # segment(v, off, n)
VSUM = decl('vsum', 's', R, I, R)     # sum of the first n elements
L1 = decl('l1', 's', R, I, R)
NORM = decl('norm', 's', R, R)
SQRT = decl('sqrt', 's', R, R)
VECM = decl('vecm', 'v', R, I, R)
EXP = decl('exp', 's', R, R)
LOG = decl('log', 's', R, R)
POW = decl('pow', 's', R, R, R)
NORMED = decl('normalized', 'v', R, R)
SOLVE = decl('solve', 'm', R, R, R)
SOLVEV = decl('solvev', 'v', R, R, R)
QRSOLVE = decl('qrsolve', 'v', R, R, R)
LLTFAIL = z3.Function('llt_fails', R, B)
LDLTOK = z3.Function('ldlt_ok', R, B)
DIVZ = decl('divz', 's', R, R)        # sign-preserving unspecified a/0


def num(x):
    if isinstance(x, Fraction):
        return z3.RealVal(f'{x.numerator}/{x.denominator}') if x.denominator != 1 else z3.RealVal(x.numerator)
    return z3.RealVal(x)


_cache_p = {}
_cache_s = {}
_atoms = {}


def nm(t):
    return t.decl().name()


def arr_base(a):
    """name of the base array of a (nested stores / function applications)"""
    while True:
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            a = a.arg(0)
        elif k == z3.Z3_OP_ITE:
            a = a.arg(1)
        elif k == z3.Z3_OP_SELECT:
            a = a.arg(0)
        elif k == z3.Z3_OP_CONST_ARRAY:
            return kind_const(a)
        else:
            return a.decl().name()


def kind_const(a):
    return '<const>'


def kind(t):
    """'m','v' or 's' for a Real-sorted term"""
    if z3.is_rational_value(t):
        return 's'
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        n = nm(t)
        r = KIND.get(n, 's')
        if r == 'm' and n == 'W':
            return 'v' if kind(t.arg(1)) == 'v' else 'm'
        if r == 'm' and n == 'T':
            return 'm'
        return r
    if k == z3.Z3_OP_SELECT:
        return KIND.get(arr_base(t.arg(0)), 's')
    if k == z3.Z3_OP_ITE:
        a = kind(t.arg(1))
        return a if a != 's' else kind(t.arg(2))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        r = 's'
        for c in t.children():
            kc = kind(c)
            if kc == 'm':
                return 'm'
            if kc == 'v':
                r = 'v'
        return r
    return 's'


def is_sym(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return nm(t) in SYM or nm(t) in ('D', 'Id')
    if k == z3.Z3_OP_SELECT:
        return arr_base(t.arg(0)) in SYM and t.arg(0).decl().kind() != z3.Z3_OP_STORE
    return False


def aid(t):
    i = t.get_id()
    if i not in _atoms:
        _atoms[i] = t
    return i


def atom(i):
    return _atoms[i]


# ---------- scalar polynomials: {monomial(tuple of atom ids sorted): Fraction}
def s_add(a, b, f=1):
    r = dict(a)
    for k, v in b.items():
        n = r.get(k, 0) + v * f
        if n == 0:
            r.pop(k, None)
        else:
            r[k] = n
    return r


def s_mul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2))
            n = r.get(k, 0) + v1 * v2
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
    return r


ONE_S = {(): Fraction(1)}


def frac(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def spoly(t):
    i = t.get_id()
    if i in _cache_s:
        return _cache_s[i]
    r = _spoly(t)
    _cache_s[i] = r
    _keep.append(t)
    return r


def _spoly(t):
    if z3.is_rational_value(t):
        f = frac(t)
        return {(): f} if f else {}
    if z3.is_int_value(t):
        f = Fraction(t.as_long())
        return {(): f} if f else {}
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = s_add(r, spoly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = spoly(ch[0])
        for c in ch[1:]:
            r = s_add(r, spoly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return s_add({}, spoly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = ONE_S
        for c in ch:
            r = s_mul(r, spoly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return s_mul(spoly(ch[0]), sinv(spoly(ch[1])))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 6:
        r = ONE_S
        for _ in range(ch[1].numerator_as_long()):
            r = s_mul(r, spoly(ch[0]))
        return r
    if k == z3.Z3_OP_TO_REAL:
        p = ipoly(ch[0])
        r = {}
        for mono, c in p.items():
            term = {(): c}
            for a in mono:
                term = s_mul(term, {(aid(z3.ToReal(atom(a))),): Fraction(1)})
            r = s_add(r, term)
        return r
    if k == z3.Z3_OP_UNINTERPRETED and nm(t) == 'sc':
        return scal(mpoly(ch[0]))
    if k == z3.Z3_OP_ITE:
        a, b = srender(spoly(ch[1])), srender(spoly(ch[2]))
        if a.eq(b):
            return spoly(a)
        t2 = z3.If(ch[0], a, b)
        return {(aid(t2),): Fraction(1)}
    return {(aid(t),): Fraction(1)}


def ipoly(t):
    """integer term -> {monomial of int atoms: Fraction}"""
    if z3.is_int_value(t):
        f = Fraction(t.as_long())
        return {(): f} if f else {}
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = s_add(r, ipoly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = ipoly(ch[0])
        for c in ch[1:]:
            r = s_add(r, ipoly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return s_add({}, ipoly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = ONE_S
        for c in ch:
            r = s_mul(r, ipoly(c))
        return r
    return {(aid(t),): Fraction(1)}


def irender(p):
    out = []
    for k in sorted(p):
        v = p[k]
        assert v.denominator == 1
        fs = [atom(a) for a in k]
        if v != 1 or not fs:
            fs = [z3.IntVal(int(v))] + fs
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        out.append(t)
    if not out:
        return z3.IntVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


_icache = {}


def icanon(t):
    i = t.get_id()
    if i not in _icache:
        _icache[i] = (irender(ipoly(t)), t)
    return _icache[i][0]


def sinv(p):
    if len(p) == 0:
        return {(aid(z3.RealVal(1) / z3.RealVal(0)),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        r = {(): 1 / c}
        for a in m:
            at = atom(a)
            if at.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(at.arg(0)) and frac(at.arg(0)) == 1 and False:
                r = s_mul(r, spoly(at.arg(1)))
            else:
                r = s_mul(r, {(aid(z3.RealVal(1) / at),): Fraction(1)})
        return r
    # normalise leading coefficient
    lead = p[min(p)]
    q = {k: v / lead for k, v in p.items()}
    return {(aid(z3.RealVal(1) / srender(q)),): 1 / lead}


def mono_term(m):
    fs = [atom(a) for a in m]
    t = fs[0]
    for f in fs[1:]:
        t = t * f
    return t


def srender(p):
    out = []
    for k in sorted(p):
        v = p[k]
        if not k:
            out.append(num(v))
        else:
            t = mono_term(k)
            out.append(t if v == 1 else num(v) * t)
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def scanon(t):
    return srender(spoly(t))


# ---------- matrix polynomials: {(scalar monomial, word): Fraction}; word = tuple of (atom id, transposed)
def mpoly(t):
    i = t.get_id()
    if i in _cache_p:
        return _cache_p[i]
    r = _mpoly(t)
    _cache_p[i] = r
    _keep.append(t)
    return r


def m_scale(p, s):
    """matrix poly times scalar poly"""
    r = {}
    for (m, w), c in p.items():
        for m2, c2 in s.items():
            k = (tuple(sorted(m + m2)), w)
            n = r.get(k, 0) + c * c2
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
    return r


def _mpoly(t):
    if z3.is_rational_value(t):
        if frac(t) == 0:
            return {}
        raise ValueError('nonzero number as matrix')
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = s_add(r, mpoly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = mpoly(ch[0])
        for c in ch[1:]:
            r = s_add(r, mpoly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return s_add({}, mpoly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        ms = [c for c in ch if kind(c) != 's']
        if len(ms) != 1:
            if any(z3.is_rational_value(c) and frac(c) == 0 for c in ch):
                return {}
            raise ValueError(f'product of {len(ms)} matrices in {t}')
        r = mpoly(ms[0])
        for c in ch:
            if not c.eq(ms[0]):
                r = m_scale(r, spoly(c))
        return r
    if k == z3.Z3_OP_UNINTERPRETED:
        n = nm(t)
        if n == 'W':
            return m_mul(mpoly(ch[0]), mpoly(ch[1]))
        if n == 'T':
            return m_T(mpoly(ch[0]))
        if n == 'D':
            return m_diag(mpoly(ch[0]))
        if n == 'Id':
            return {((), ()): Fraction(1)}
    if k == z3.Z3_OP_ITE:
        a, b = mrender(mpoly(ch[1])), mrender(mpoly(ch[2]))
        if a.eq(b):
            return mpoly(a)
        return {((), ((aid(z3.If(ch[0], a, b)), False),)): Fraction(1)}
    return {((), ((aid(t), False),)): Fraction(1)}


def is_D(a):
    t = atom(a)
    return t.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm(t) == 'D'


def dvec(a):
    return aid(atom(a).arg(0))


def inv_of(a):
    """id of v if atom a is vinv(v)"""
    t = atom(a)
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm(t) == 'vinv':
        return aid(t.arg(0))
    return None


def norm_multi(ms):
    """multiset of vector atoms under the Hadamard product: cancel v with 1/v, drop ones"""
    ms = list(ms)
    ones = aid(ONES)
    ms = [a for a in ms if a != ones]
    changed = True
    while changed:
        changed = False
        for a in ms:
            v = inv_of(a)
            if v is not None and v in ms:
                ms.remove(a)
                ms.remove(v)
                changed = True
                break
    return sorted(ms)


def isvec_atom(a):
    return kind(atom(a)) == 'v'


def norm_word(w):
    if not any(is_D(a) for a, _ in w):
        return w
    w = norm_runs(w)
    if w and not w[-1][1] and isvec_atom(w[-1][0]):
        w = norm_comps(w)
    return w


def is_comp(x):
    """vector atom that is itself a product"""
    t = atom(x)
    return t.decl().kind() == z3.Z3_OP_UNINTERPRETED and nm(t) == 'W'


def norm_comps(w):
    """Hadamard products with composite vectors, D(Cx) v = D(v) Cx: one composite stands last"""
    for _ in range(6):
        n = len(w)
        for i in range(n):
            if not is_D(w[i][0]) or (i and is_D(w[i - 1][0])):
                continue
            j = i
            while j < n and is_D(w[j][0]):
                j += 1
            comps = [dvec(a) for a, _ in w[i:j] if is_comp(dvec(a))]
            if not comps or j >= n:
                continue
            others = [dvec(a) for a, _ in w[i:j] if not is_comp(dvec(a))]
            suf = w[j:]
            if len(suf) == 1:
                others = norm_multi(others + [suf[0][0]])
            else:
                comps = comps + [aid(wrender(suf))]
            comps.sort()
            tail = comps[0]
            if len(suf) > 1 and tail == aid(wrender(suf)):
                tw = suf
            else:
                q = mpoly(atom(tail))
                ((mm, tw), cc), = q.items()
            new = w[:i] + tuple((aid(D(atom(x))), False) for x in sorted(others) + comps[1:]) + tw
            if new != w:
                w = norm_runs(new)
                break
        else:
            return w
    return w


def norm_runs(w):
    out = []
    i = 0
    n = len(w)
    while i < n:
        a, tr = w[i]
        # run: optional transposed leading vector, D*, optional trailing vector
        j = i
        lead = None
        if tr and isvec_atom(a) and j + 1 < n and is_D(w[j + 1][0]):
            lead = a
            j += 1
        ds = []
        while j < n and is_D(w[j][0]):
            ds.append(dvec(w[j][0]))
            j += 1
        if not ds:
            out.append(w[i])
            i += 1
            continue
        tail = None
        if j < n and not w[j][1] and isvec_atom(w[j][0]) and j == n - 1:
            tail = w[j][0]
            j += 1
        ms = norm_multi(([lead] if lead is not None else []) + ds + ([tail] if tail is not None else []))
        ones = aid(ONES)
        if lead is not None and tail is not None:
            while len(ms) < 2:
                ms = ms + [ones]
            out.append((ms[0], True))
            for x in ms[1:-1]:
                out.append((aid(D(atom(x))), False))
            out.append((ms[-1], False))
        elif lead is not None:
            if not ms:
                ms = [ones]
            out.append((ms[0], True))
            for x in ms[1:]:
                out.append((aid(D(atom(x))), False))
        elif tail is not None:
            if not ms:
                ms = [ones]
            for x in ms[:-1]:
                out.append((aid(D(atom(x))), False))
            out.append((ms[-1], False))
        else:
            for x in ms:
                out.append((aid(D(atom(x))), False))
        i = j
    return tuple(out)


def m_mul(a, b):
    r = {}
    for (m1, w1), c1 in a.items():
        for (m2, w2), c2 in b.items():
            k = (tuple(sorted(m1 + m2)), norm_word(w1 + w2))
            n = r.get(k, 0) + c1 * c2
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
    return r


def w_T(w):
    return norm_word(tuple((a, (not tr) and not is_sym(atom(a))) for a, tr in reversed(w)))


def m_T(p):
    return {(m, w_T(w)): c for (m, w), c in p.items()}


def m_diag(p):
    r = {}
    for (m, w), c in p.items():
        # word must be a vector word; D-run + vector -> product of diagonals
        if all(is_D(a) for a, _ in w[:-1]) and w and not w[-1][1]:
            ms = norm_multi([dvec(a) for a, _ in w[:-1]] + [w[-1][0]])
            w2 = tuple((aid(D(atom(x))), False) for x in ms)
        elif w and is_D(w[0][0]) and not w[-1][1] and isvec_atom(w[-1][0]):
            i = 0
            while is_D(w[i][0]):
                i += 1
            w2 = tuple((aid(D(atom(x))), False) for x in norm_multi([dvec(a) for a, _ in w[:i]])) + ((aid(D(wrender(w[i:]))), False),)
        else:
            w2 = ((aid(D(wrender(w))), False),)
        k = (m, w2)
        n = r.get(k, 0) + c
        if n == 0:
            r.pop(k, None)
        else:
            r[k] = n
    return r


_wcache = {}


def wrender(w):
    if w in _wcache:
        return _wcache[w]
    if not w:
        t = ID
    else:
        ts = [T(atom(a)) if tr else atom(a) for a, tr in w]
        t = ts[-1]
        for x in reversed(ts[:-1]):
            t = W(x, t)
    _wcache[w] = t
    return t


def mrender(p):
    out = []
    for k in sorted(p):
        m, w = k
        c = p[k]
        t = wrender(w)
        if m:
            t = mono_term(m) * t
        if c != 1:
            t = num(c) * t
        out.append(t)
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def mcanon(t):
    return mrender(mpoly(t))


def canon(t):
    if z3.is_int(t):
        return icanon(t)
    if kind(t) == 's':
        return scanon(t)
    return mcanon(t)


def scal(p):
    """1x1 matrix polynomial -> scalar polynomial"""
    r = {}
    for (m, w), c in p.items():
        wt = w_T(w)
        w0 = min(w, wt)
        if w0 == ():
            k = m
        elif len(w0) == 1 and w0[0][1] is False and False:
            k = m
        else:
            k = tuple(sorted(m + (aid(SC(wrender(w0))),)))
        n = r.get(k, 0) + c
        if n == 0:
            r.pop(k, None)
        else:
            r[k] = n
    return r


# ---------- operations on z3 terms
def mul(a, b):
    return mrender(m_mul(mpoly(a), mpoly(b)))


def transpose(a):
    return mrender(m_T(mpoly(a)))


def madd(a, b, f=1):
    return mrender(s_add(mpoly(a), mpoly(b), f))


def mscale(s, a):
    return mrender(m_scale(mpoly(a), spoly(s)))


def diag(v):
    return mrender(m_diag(mpoly(v)))


def hadamard(a, b):
    return mrender(m_mul(m_diag(mpoly(a)), mpoly(b)))


def dot(a, b):
    return srender(scal(m_mul(m_T(mpoly(a)), mpoly(b))))


def vinv(v):
    p = mpoly(v)
    if len(p) == 1:
        ((m, w), c), = p.items()
        if all(is_D(a) for a, _ in w[:-1]) and w and not w[-1][1]:
            # product of vectors: invert each
            ms = [dvec(a) for a, _ in w[:-1]] + [w[-1][0]]
            r = {((), ((aid(ONES), False),)): Fraction(1)}
            for x in ms:
                iv = inv_of(x)
                y = iv if iv is not None else (x if x == aid(ONES) else aid(VINV(atom(x))))
                r = m_mul(m_diag({((), ((y, False),)): Fraction(1)}), r)
            return mrender(m_scale(r, sinv({m: c})))
    return VINV(mrender(p))


def elem(v, i):
    """element i of a vector term"""
    p = mpoly(v)
    r = {}
    for (m, w), c in p.items():
        r = s_add(r, s_mul({m: c}, welem(w, i)))
    return srender(r)


def welem(w, i):
    if all(is_D(a) for a, _ in w[:-1]) and w and not w[-1][1] and (len(w) == 1 or isvec_atom(w[-1][0])):
        r = ONE_S
        for a, _ in w[:-1]:
            r = s_mul(r, spoly(aelem(atom(dvec(a)), i)))
        return s_mul(r, spoly(aelem(atom(w[-1][0]), i)))
    return {(aid(AT(wrender(w), i)),): Fraction(1)}


def aelem(t, i):
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), elem(t.arg(1), i), elem(t.arg(2), i))
    if k == z3.Z3_OP_UNINTERPRETED:
        n = nm(t)
        if n == 'vecof':
            return z3.Select(t.arg(0), i)
        if n == 'ones':
            return z3.RealVal(1)
        if n == 'cmax':
            a, b = elem(t.arg(0), i), elem(t.arg(1), i)
            return z3.If(a >= b, a, b)
        if n == 'cmin':
            a, b = elem(t.arg(0), i), elem(t.arg(1), i)
            return z3.If(a <= b, a, b)
        if n == 'cabs':
            a = elem(t.arg(0), i)
            return z3.If(a >= 0, a, -a)
        if n == 'vinv':
            return z3.RealVal(1) / elem(t.arg(0), i)
        if n == 'vlog':
            return LOG(elem(t.arg(0), i))
        if n == 'seg':
            return elem(t.arg(0), icanon(t.arg(1) + i))
        if n == 'col':
            return elem2(t.arg(0), i, t.arg(1))
        if n == 'row':
            return elem2(t.arg(0), t.arg(1), i)
    return AT(t, i)


def elem2(m, i, j):
    p = mpoly(m)
    r = {}
    for (mo, w), c in p.items():
        r = s_add(r, s_mul({mo: c}, spoly(welem2(w, i, j))))
    return srender(r)


def welem2(w, i, j):
    if w == ():
        return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))
    if len(w) == 1:
        a, tr = w[0]
        t = atom(a)
        if tr:
            i, j = j, i
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = nm(t)
            if n == 'matof':
                return z3.Select(z3.Select(t.arg(0), i), j)
            if n == 'colsof':
                return elem(z3.Select(t.arg(0), j), i)
            if n == 'rowsof':
                return elem(z3.Select(t.arg(0), i), j)
            if n == 'D':
                return z3.If(i == j, elem(t.arg(0), i), z3.RealVal(0))
        return AT2(t, i, j)
    return AT2(wrender(w), i, j)


def col(m, j):
    p = mpoly(m)
    r = {}
    for (mo, w), c in p.items():
        if w == ():
            q = {((), ((aid(COL(ID, j)), False),)): Fraction(1)}
        else:
            a, tr = w[-1]
            t = atom(a)
            last = COL(t, j) if not tr else ROW(t, j)
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if nm(t) == 'colsof' and not tr:
                    last = z3.Select(t.arg(0), j)
                if nm(t) == 'rowsof' and tr:
                    last = z3.Select(t.arg(0), j)
            q = m_mul({((), w[:-1]): Fraction(1)}, mpoly(last))
        r = s_add(r, m_scale(q, {mo: c}))
    return mrender(r)


def row(m, i):
    return col(transpose(m), i)


# ---------- big sums
_sumdecl = {}


def bigsum(e, j, lo, hi):
    """sum_{j=lo}^{hi-1} e(j); e: Real term with the Int constant j"""
    from .prove import deep
    e = deep(z3.substitute(e, (j, _JV)))      # canonical with respect to one fixed bound variable
    j = _JV
    p = spoly(e)
    r = {}
    for m, c in p.items():
        inn, out = [], []
        for a in m:
            (inn if occurs(atom(a), j) else out).append(a)
        if not inn:
            n = spoly(z3.ToReal(hi - lo))
            r = s_add(r, s_mul({m: c}, n))
            continue
        t = mono_term(tuple(inn))
        skel, args = skeleton(t, j)
        key = skel.sexpr()
        sig = (key, tuple(str(a.sort()) for a in args))
        if sig not in _sumdecl:
            _sumdecl[sig] = z3.Function(f'SUM_{len(_sumdecl)}', *([I, I] + [a.sort() for a in args] + [R]))
            SUMDEF[_sumdecl[sig].name()] = (skel, [a for a in args], j)
        f = _sumdecl[sig]
        st = f(icanon(lo), icanon(hi), *args)
        r = s_add(r, s_mul({tuple(sorted(out)): c}, {(aid(st),): Fraction(1)}))
    return srender(r)


SUMDEF = {}
_JV = z3.Int('__j')


def occurs(t, v):
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == vid:
            return True
        st.extend(x.children())
    return False


def skeleton(t, j):
    """replace maximal j-free subterms by numbered holes"""
    args = []
    idx = {}

    def go(x):
        if x.eq(j):
            return _JV
        if not occurs(x, j):
            if z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x):
                return x
            i = x.get_id()
            if i not in idx:
                idx[i] = len(args)
                args.append(x)
            return z3.Const(f'__h{idx[i]}', x.sort())
        return x.decl()(*[go(c) for c in x.children()])
    return go(t), args


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t
