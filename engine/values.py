"""Symbolic values of the verifier: scalars (terms), matrices, sequences, maps, sets, tuples, objects."""
from terms import *

class Unsupported(Exception): pass

class Mat:
    """dense matrix/array expression: rows, cols terms; f(i,j) -> term"""
    __slots__ = ('rows', 'cols', 'f', 'kind', 'es', 'ct', 'ms', 'tag', 'nc')
    def __init__(s, rows, cols, f, kind='M', es='R', ct='mat', ms=None, tag=None, nc=None):
        s.rows = c(rows); s.cols = c(cols); s.f = f; s.kind = kind; s.es = es; s.ct = ct; s.ms = ms; s.tag = tag
        s.nc = nc      # matrix-algebra form (matalg.py): polynomial, or a function computing it, or None
    def with_(s, **kw):
        d = dict(rows=s.rows, cols=s.cols, f=s.f, kind=s.kind, es=s.es, ct=s.ct, ms=None, tag=None, nc=s.nc if not {'f', 'rows', 'cols'} & set(kw) else None); d.update(kw)
        return Mat(**d)
    def map(s, g, es=None): return Mat(s.rows, s.cols, lambda i, j: g(s.f(i, j)), s.kind, es or s.es, s.ct)
    def lin(s, k):
        """k-th element of a vector-shaped matrix"""
        if s.ct == 'col': return s.f(c(k), ZERO)
        if s.ct == 'row': return s.f(ZERO, c(k))
        if isc(s.cols) and cv(s.cols) == 1: return s.f(c(k), ZERO)
        if isc(s.rows) and cv(s.rows) == 1: return s.f(ZERO, c(k))
        # column-major linear index
        return s.f(imod(c(k), s.rows), idiv(c(k), s.rows))
    def size(s):
        if s.ct == 'col': return s.rows
        if s.ct == 'row': return s.cols
        return s.rows * s.cols
    def T(s): 
        return Mat(s.cols, s.rows, lambda i, j: s.f(j, i), s.kind, s.es, {'col': 'row', 'row': 'col'}.get(s.ct, 'mat'), nc=lambda A: A.tr(A.nc(s)))

class Vec:
    """std::vector-like sequence: len term, f(i) -> value ; proto describes element shape when empty"""
    __slots__ = ('n', 'f', 'ety', 'ms')
    def __init__(s, n, f, ety, ms=None): s.n = c(n); s.f = f; s.ety = ety; s.ms = ms
class MapV:
    __slots__ = ('has', 'f', 'kty', 'vty', 'ordered')
    def __init__(s, has, f, kty, vty, ordered=True): s.has = has; s.f = f; s.kty = kty; s.vty = vty; s.ordered = ordered
class SetV:
    __slots__ = ('has', 'kty', 'ordered')
    def __init__(s, has, kty, ordered=True): s.has = has; s.kty = kty; s.ordered = ordered
class Tup:
    __slots__ = ('xs',)
    def __init__(s, xs): s.xs = tuple(xs)
class Obj:
    """class object; cls = class node, f = dict name -> value"""
    __slots__ = ('cls', 'f')
    def __init__(s, cls, f): s.cls = cls; s.f = f
class Ptr:
    """pointer / smart pointer; lv None = null"""
    __slots__ = ('lv', 'smart')
    def __init__(s, lv, smart=False): s.lv = lv; s.smart = smart
class Lam:
    __slots__ = ('node', 'env', 'this')
    def __init__(s, node, env, this): s.node = node; s.env = env; s.this = this
class It:
    """iterator: (container lvalue or value, position term)"""
    __slots__ = ('src', 'pos', 'kind')
    def __init__(s, src, pos, kind): s.src = src; s.pos = c(pos); s.kind = kind
class Opaque:
    __slots__ = ('tag',)
    def __init__(s, tag): s.tag = tag
class VWise:
    """rowwise()/colwise() view"""
    __slots__ = ('src', 'axis')
    def __init__(s, src, axis): s.src = src; s.axis = axis
class Comma:
    __slots__ = ('lv', 'r', 'c', 'blockrows')
    def __init__(s, lv): s.lv = lv
class LV:
    """lvalue: cell + access path"""
    __slots__ = ('cell', 'path')
    def __init__(s, cell, path=()): s.cell = cell; s.path = path
    def at(s, *acc): return LV(s.cell, s.path + (acc,))
class Lazy:
    __slots__ = ('v', 'deps')
    def __init__(s, v, deps): s.v = v; s.deps = deps
class Decomp:
    """result of a matrix decomposition object"""
    __slots__ = ('kind', 'm', 'extra')
    def __init__(s, kind, m, extra=None): s.kind = kind; s.m = m; s.extra = extra or {}

# ---- C++ type strings -------------------------------------------------
def split_targs(t):
    i = t.find('<')
    if i < 0: return t.strip(), []
    d = 0; args = []; cur = ''
    j = i
    while j < len(t):
        ch = t[j]
        if ch in '<(':
            d += 1
            if d == 1: j += 1; continue
        if ch in '>)':
            d -= 1
            if d == 0: break
        if ch == ',' and d == 1: args.append(cur.strip()); cur = ''
        else: cur += ch
        j += 1
    if cur.strip(): args.append(cur.strip())
    return t[:i].strip(), args
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char',
        'std::size_t', 'size_t', 'Eigen::Index', 'Index', 'std::ptrdiff_t', 'ptrdiff_t', 'uint32_t', 'uint64_t', 'int64_t', 'int32_t', 'size_type', 'std::streamsize',
        'difference_type', 'long int'}
UNS = {'unsigned int', 'unsigned long', 'unsigned long long', 'std::size_t', 'size_t', 'uint64_t', 'uint32_t', 'unsigned short', 'unsigned char', 'size_type'}
def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'typename '):
            if t.startswith(p): t = t[len(p):].strip(); ch = True
        for p in (' const', '&', '*const'):
            if t.endswith(p): t = t[:-len(p)].strip(); ch = True
    return t
_tc = {}
def classify(t):
    """C++ type string -> descriptor tuple"""
    r = _tc.get(t)
    if r is None:
        r = _classify(t); _tc[t] = r
    return r
def _classify(t):
    t = strip(t)
    if t in INTS: return ('I', t in UNS)
    if t in ('double', 'float', 'long double', 'Scalar', 'RealScalar'): return ('R',)
    if t == 'bool': return ('B',)
    if t in ('std::string', 'std::basic_string<char>', 'string') or t.startswith('std::basic_string<char') or t.startswith('basic_string<char'): return ('U',)
    if t == 'void': return ('void',)
    if t.endswith('*'): return ('ptr', t[:-1].strip())
    n, a = split_targs(t)
    b = n.split('::')[-1]
    if n in ('Eigen::Matrix', 'Matrix', 'Eigen::Array', 'Array'):
        e = classify(a[0])
        es = e[0] if e[0] in 'IRBU' else None
        if es is None: return ('cls', t)
        cts = 'col' if a[2] == '1' and a[1] != '1' else 'row' if a[1] == '1' and a[2] != '1' else 'mat'
        fixed = (a[1] if a[1] not in ('-1', 'Eigen::Dynamic') else None, a[2] if a[2] not in ('-1', 'Eigen::Dynamic') else None)
        return ('mat', es, cts, 'A' if b == 'Array' else 'M', fixed, e)
    if t in ('Eigen::MatrixXd', 'MatrixXd'): return ('mat', 'R', 'mat', 'M', (None, None), ('R',))
    if t in ('Eigen::VectorXd', 'VectorXd'): return ('mat', 'R', 'col', 'M', (None, '1'), ('R',))
    if b in ('vector', 'deque', 'list') and a: return ('vec', classify(a[0]))
    if b in ('map', 'unordered_map') and a: return ('map', classify(a[0]), classify(a[1]), b == 'map')
    if b in ('set', 'unordered_set') and a: return ('set', classify(a[0]), b == 'set')
    if b == 'pair' and a: return ('tup', (classify(a[0]), classify(a[1])))
    if b == 'tuple': return ('tup', tuple(classify(x) for x in a))
    if b in ('unique_ptr', 'shared_ptr'): return ('sptr', a[0])
    return ('cls', t)
