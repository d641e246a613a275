"""Symbolic values, types and memory."""
import re
import z3
from . import terms as tm
from .terms import *
from .front import split_targs


class Unsupported(Exception):
    """construct outside the verifier's dialect"""


class Num:
    __slots__ = ('t', 'nan')

    def __init__(s, t, nan=None):
        s.t, s.nan = t, nan

    def __repr__(s):
        return f'Num({s.t})'


class Mat:
    __slots__ = ('t', 'rows', 'cols', 'arr', 'vec', 'nan')

    def __init__(s, t, rows=None, cols=None, arr=False, vec=None, nan=None):
        s.t, s.rows, s.cols, s.arr, s.nan = t, rows, cols, arr, nan
        s.vec = vec if vec is not None else (kind(t) == 'v')

    def __repr__(s):
        return f'Mat({s.t})'

    @property
    def size(s):
        if s.vec:
            return s.rows
        if s.rows is None or s.cols is None:
            return None
        if z3.is_int_value(s.cols) and s.cols.as_long() == 1:
            return s.rows
        return icanon(s.rows * s.cols)


class BArr:
    """boolean array: element function f(idx)->Bool, length n; arr is the z3 array when stored"""
    __slots__ = ('arr', 'f', 'n')

    def __init__(s, n, f=None, arr=None):
        s.n, s.arr = n, arr
        s.f = f if f is not None else (lambda i: z3.Select(arr, i))


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(s, cls, f):
        s.cls, s.f = cls, f

    def upd(s, name, v):
        d = dict(s.f)
        d[name] = v
        return Struct(s.cls, d)

    def __repr__(s):
        return f'{s.cls}{{{", ".join(s.f)}}}'


class Lst:
    """std::vector / std::array: len + one z3 array per leaf of the element type"""
    __slots__ = ('ety', 'n', 'leaves')

    def __init__(s, ety, n, leaves):
        s.ety, s.n, s.leaves = ety, n, leaves


class Obj:
    """opaque object, e.g. LLT factorization: kind + data dict"""
    __slots__ = ('k', 'd')

    def __init__(s, k, **d):
        s.k, s.d = k, d

    def __repr__(s):
        return f'Obj({s.k})'


class Fn:
    """callable: python function (eng, st, args[(st,val,loc)]) -> generator of (st, val)"""
    __slots__ = ('f', 'name')

    def __init__(s, f, name=''):
        s.f, s.name = f, name


class RefV:
    """reference variable bound to a location"""
    __slots__ = ('loc',)

    def __init__(s, loc):
        s.loc = loc


class Tup:
    __slots__ = ('a',)

    def __init__(s, a):
        s.a = list(a)


VOID = Obj('void')


# ---------------------------------------------------------------- types
INTS = {'int', 'size_t', 'unsigned int', 'long', 'unsigned long', 'Eigen::Index', 'std::size_t', 'Index', 'unsigned', 'long long', 'std::ptrdiff_t',
        'std::size_t', 'short', 'size_type', 'difference_type', 'int64_t', 'uint64_t', 'int32_t'}


def clean(q):
    q = q.strip()
    while True:
        o = q
        q = q.strip()
        q = re.sub(r'^(const|typename|class|struct|constexpr|static|volatile|mutable)\s+', '', q)
        q = re.sub(r'\s*(&&|&|\*const|\bconst)$', '', q)
        if q == o:
            return q


class Types:
    def __init__(self, front):
        self.fr = front
        self.cache = {}

    def parse(self, q, cls=None):
        if q is None:
            return ('auto',)
        key = (q, cls)
        if key not in self.cache:
            self.cache[key] = self._parse(clean(q), cls, 0)
        return self.cache[key]

    def lookup(self, name, cls):
        # nested class / alias in scope
        scopes = []
        c = cls
        while c:
            scopes.append(c)
            c = '::'.join(c.split('::')[:-1])
        for s in scopes:
            if s in self.fr.classes:
                if name in self.fr.classes[s].aliases:
                    return ('alias', self.fr.classes[s].aliases[name], s)
                if name in self.fr.classes[s].enums:
                    return ('enum', name, s)
            if f'{s}::{name}' in self.fr.classes:
                return ('cls', f'{s}::{name}', None)
        if name in self.fr.classes:
            return ('cls', name, None)
        for cn, c in self.fr.classes.items():
            if name in c.aliases:
                return ('alias', c.aliases[name], cn)
        for cn, c in self.fr.classes.items():
            if name in c.enums:
                return ('enum', name, cn)
        for cn in self.fr.classes:
            if cn.endswith('::' + name):
                return ('cls', cn, None)
        return None

    def _parse(self, q, cls, d):
        if d > 12:
            raise Unsupported('type ' + q)
        q = clean(q)
        if q in ('double', 'float'):
            return ('real',)
        if q in INTS or q.endswith('::Index') or q.endswith('size_type'):
            return ('int',)
        if q == 'bool':
            return ('bool',)
        if q == 'void':
            return ('void',)
        if q == 'auto' or q == 'decltype(auto)':
            return ('auto',)
        if q.startswith('std::chrono') or 'chrono' in q:
            return ('opaque',)
        if q in ('std::string', 'std::basic_string<char>', 'std::ofstream', 'std::ostream'):
            return ('opaque',)
        if q.startswith('Eigen::'):
            q = q[7:]
        m = re.match(r'^(?:Eigen::)?(Ref|Map|MatrixBase|ArrayBase|DenseBase|EigenBase)<(.*)>$', q)
        if m:
            return self._parse(split_targs(m.group(2))[0], cls, d + 1)
        m = re.match(r'^(Matrix|Array)<(.*)>$', q)
        if m:
            a = split_targs(m.group(2))
            if a[0] == 'bool':
                return ('barr',)
            if a[0] not in ('double', 'float'):
                return ('opaque',)
            if len(a) > 2 and a[2] == '1':
                return ('vec', a[1], m.group(1) == 'Array')
            return ('mat', a[1], a[2], m.group(1) == 'Array')
        m = re.match(r'^(Vector|Matrix|Array|RowVector)(X|[2-9])(X|[2-9])?d$', q)
        if m:
            dim = lambda s_: '-1' if s_ == 'X' else s_
            if m.group(1) == 'Vector':
                return ('vec', dim(m.group(2)), False)
            if m.group(1) == 'Array' and q in ('ArrayXd',):
                return ('vec', '-1', True)
            if m.group(1) == 'Matrix':
                return ('mat', dim(m.group(2)), dim(m.group(3) or m.group(2)), False)
        m = re.match(r'^(?:std::)?vector<(.*)>$', q)
        if m:
            return ('list', self._parse(split_targs(m.group(1))[0], cls, d + 1))
        m = re.match(r'^(?:std::)?array<(.*)>$', q)
        if m:
            a = split_targs(m.group(1))
            return ('array', self._parse(a[0], cls, d + 1), int(a[1]))
        m = re.match(r'^(?:std::)?(unique_ptr|shared_ptr)<(.*)>$', q)
        if m:
            return ('ptr', m.group(2))
        if q.startswith('std::function<') or q.startswith('function<'):
            return ('fn', q)
        if q.startswith('std::unordered_map') or q.startswith('unordered_map'):
            return ('opaque',)
        m = re.match(r'^(LLT|LDLT|FullPivLU|PartialPivLU|HouseholderQR|ColPivHouseholderQR)<(.*)>$', q)
        if m:
            return ('dec', m.group(1))
        base = re.sub(r'<.*>', '', q)
        parts = base.split('::')
        # strip template arguments anywhere: A<..>::B
        q2 = strip_targs(q)
        parts = [p for p in q2.split('::') if p]
        last = parts[-1]
        r = None
        if len(parts) > 1:
            scope = '::'.join(p for p in parts[:-1] if p not in ('nmpc_ddp', 'nmpc_fmpc', 'nmpc_cgmres', 'std', 'Eigen'))
            if scope in self.fr.classes:
                c = self.fr.classes[scope]
                if last in c.aliases:
                    r = ('alias', c.aliases[last], scope)
                elif last in c.enums:
                    r = ('enum', last, scope)
                elif scope + '::' + last in self.fr.classes:
                    r = ('cls', scope + '::' + last, None)
        if r is None:
            r = self.lookup(last, cls)
        if r is None:
            # dimension-named vector/matrix aliases of classes outside the dumped namespace
            m = re.match(r'^(\w+?)Dim(Vector|Matrix)$', last)
            if m and m.group(2) == 'Vector':
                return ('vec', m.group(1) + 'Dim', False)
            if m:
                return ('mat', '?', '?', False)
            return ('opaque',)
        if r[0] == 'alias':
            if clean(r[1]).endswith('::' + last) or clean(r[1]) == last:
                # alias of an alias in another class (e.g. FmpcProblem -> DDPProblem)
                m = re.match(r'^(\w+?)Dim(Vector)$', last)
                q3 = strip_targs(clean(r[1]))
                sc = '::'.join(q3.split('::')[:-1])
                if sc in self.fr.classes and last in self.fr.classes[sc].aliases and sc != r[2]:
                    return self._parse(self.fr.classes[sc].aliases[last], sc, d + 1)
                if m:
                    return ('vec', m.group(1) + 'Dim', False)
                if last.endswith('DimMatrix'):
                    mm = re.match(r'^(State|Input|Ineq|Var)(State|Input|Ineq|Var)DimMatrix$', last)
                    return ('mat', mm.group(1) + 'Dim', mm.group(2) + 'Dim', False) if mm else ('mat', '?', '?', False)
            return self._parse(r[1], r[2], d + 1)
        if r[0] == 'enum':
            return ('int',)
        return ('struct', r[1])


def strip_targs(q):
    out, d = '', 0
    for c in q:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out
