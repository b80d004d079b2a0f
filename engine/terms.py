"""Hash-consed terms of the specification logic.

Sorts: 'I' (mathematical integers), 'R' (reals; I is a subset), 'B' (booleans),
'U' (opaque values such as strings, with equality and a total order).
Binders use de Bruijn indices ('b' nodes); all terms handled outside are locally closed.
Binder ops:  sum/prod/max/min/argmax/argmin/exists/forall (n, body)   index ranges over 0..n-1
             nth(cond, i)        index of the i-th s>=0 with cond(s)
             ksm(n, body, i)     i-th smallest of body(0..n-1)
             card(has)/enum(has,k)  number of / k-th (ascending) element of the finite set {q | has(q)}
             sumset unused (sum over card/enum is used instead)
"""
from fractions import Fraction
import itertools

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'nb', '__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    # arithmetic sugar ------------------------------------------------
    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __truediv__(a, b): return div(a, b)
    def __rtruediv__(a, b): return div(b, a)
    def __neg__(a): return mul(c(-1), a)
    def __lt__(a, b): return lt(a, b)
    def __le__(a, b): return le(a, b)
    def __gt__(a, b): return lt(b, a)
    def __ge__(a, b): return le(b, a)
    def __and__(a, b): return and_(a, b)
    def __or__(a, b): return or_(a, b)
    def __invert__(a): return not_(a)
    def __pow__(a, k):
        if isinstance(k, int) and k >= 0:
            r = c(1)
            for _ in range(k): r = mul(r, a)
            return r
        return pow_(a, k)
    def eq(a, b): return eq(a, b)
    def ne(a, b): return not_(eq(a, b))

_table = {}
_next = itertools.count(1)
BIND = {'sum': 1, 'prod': 1, 'max': 1, 'min': 1, 'argmax': 1, 'argmin': 1, 'exists': 1, 'forall': 1,
        'nth': 0, 'ksm': 1, 'card': 0, 'enum': 0, 'iter': 1}
# BIND[op] = position of the body argument (which binds one de Bruijn index)
EMPTY = frozenset()

def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None: return t
    t = T.__new__(T)
    t.op = op; t.args = args; t.sort = sort; t.id = next(_next)
    if op == 'v': t.fv = frozenset((t,)); t.nb = 0
    elif op == 'b': t.fv = EMPTY; t.nb = args[0] + 1
    elif op == 'c': t.fv = EMPTY; t.nb = 0
    else:
        fv = EMPTY; nb = 0; bp = BIND.get(op, -1)
        for k, a in enumerate(args):
            if isinstance(a, T):
                if a.fv: fv = fv | a.fv if fv else a.fv
                n = a.nb - 1 if k == bp else a.nb
                if n > nb: nb = n
        t.fv = fv; t.nb = nb
    _table[key] = t
    return t

def c(v, sort=None):
    if isinstance(v, T): return v
    if isinstance(v, bool): return mk('c', (v, 'B'), 'B')
    if isinstance(v, int): return mk('c', (Fraction(v), 'N'), sort or 'I')
    if isinstance(v, float): v = Fraction(repr(v))
    if isinstance(v, Fraction):
        return mk('c', (v, 'N'), sort or ('I' if v.denominator == 1 else 'R'))
    if isinstance(v, str): return mk('c', (v, 'S'), 'U')
    raise TypeError(v)
TRUE = c(True); FALSE = c(False); ZERO = c(0); ONE = c(1)
def isc(t): return t.op == 'c'
def cv(t): return t.args[0]
def var(name, sort='I'): return mk('v', (name,), sort)
_fresh = itertools.count(1)
def fresh(prefix='k', sort='I'): return mk('v', ('%s!%d' % (prefix, next(_fresh)),), sort)
def app(f, args, sort='R'): return mk('app', (f,) + tuple(c(a) for a in args), sort)
def _rs(*a):
    for x in a:
        if x.sort == 'R': return 'R'
    return 'I'

def add(a, b):
    a = c(a); b = c(b)
    if isc(a) and isc(b): return c(cv(a) + cv(b))
    if isc(a) and cv(a) == 0: return b
    if isc(b) and cv(b) == 0: return a
    return mk('add', (a, b), _rs(a, b))
def sub(a, b):
    a = c(a); b = c(b)
    if a is b: return ZERO
    return add(a, mul(c(-1), b))
def mul(a, b):
    a = c(a); b = c(b)
    if isc(a) and isc(b): return c(cv(a) * cv(b))
    if isc(a):
        if cv(a) == 0: return ZERO
        if cv(a) == 1: return b
        if b.op == 'mul' and isc(b.args[0]): return mul(c(cv(a) * cv(b.args[0])), b.args[1])
    if isc(b): return mul(b, a)
    return mk('mul', (a, b), _rs(a, b))
def inv(a):
    a = c(a)
    if isc(a) and cv(a) != 0: return c(1 / cv(a))
    return mk('inv', (a,), 'R')
def div(a, b):
    a = c(a); b = c(b)
    if isc(b) and cv(b) != 0: return mul(c(1 / cv(b)), a)
    return mul(a, inv(b))
def ipow(a, k):
    """a^k for a literal integer k (may be negative)"""
    if k < 0: return inv(ipow(a, -k))
    return c(a) ** k
def fn(name, *args, sort='R'): return mk('fn', (name,) + tuple(c(a) for a in args), sort)
def exp(a): return fn('exp', a)
def log(a): return fn('log', a)
def sqrt(a): return fn('sqrt', a)
def abs_(a):
    a = c(a)
    return ite(lt(a, 0), -a, a)
def pow_(a, b):
    a = c(a); b = c(b)
    if isc(b) and cv(b).denominator == 1 and abs(cv(b)) <= 8: return ipow(a, int(cv(b)))
    if isc(b) and cv(b) == Fraction(1, 2): return sqrt(a)
    return fn('pow', a, b)
def idiv(a, b):      # mathematical floor division; C++ division agrees for non-negative operands
    a = c(a); b = c(b)
    if isc(a) and isc(b) and cv(b) != 0: return c(cv(a) // cv(b))
    if isc(b) and cv(b) == 1: return a
    return mk('idiv', (a, b), 'I')
def imod(a, b):
    a = c(a); b = c(b)
    if isc(a) and isc(b) and cv(b) != 0: return c(cv(a) % cv(b))
    return mk('imod', (a, b), 'I')
def floor(a):
    a = c(a)
    if a.sort == 'I': return a
    if isc(a): return c(cv(a).numerator // cv(a).denominator)
    return mk('floor', (a,), 'I')
def trunc(a):
    """C++ conversion of a real to an integer"""
    a = c(a)
    if a.sort == 'I': return a
    if isc(a): return c(int(cv(a)))
    return ite(lt(a, 0), -floor(-a), floor(a))
def isnum(t): return t.sort in 'IR'
def _inf(a, b):
    """-1: a is the infinite constant and b finite, 1: b is infinite and a finite (every other symbol denotes a finite value)"""
    if a.op == 'v' and a.args[0] == 'INFTY' and a not in b.fv: return -1
    if b.op == 'v' and b.args[0] == 'INFTY' and b not in a.fv: return 1
    return 0
def lt(a, b):
    a = c(a); b = c(b)
    if a is b: return FALSE
    k = _inf(a, b)
    if k: return c(k > 0)
    if isc(a) and isc(b): return c(bool(cv(a) < cv(b)))
    return mk('lt', (a, b), 'B')
def le(a, b):
    a = c(a); b = c(b)
    if a is b: return TRUE
    k = _inf(a, b)
    if k: return c(k > 0)
    if isc(a) and isc(b): return c(bool(cv(a) <= cv(b)))
    return mk('le', (a, b), 'B')
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    a = c(a); b = c(b)
    if a is b: return TRUE
    if _inf(a, b): return FALSE
    if isc(a) and isc(b): return c(bool(cv(a) == cv(b)))
    if a.sort == 'B' and b.sort == 'B':
        if isc(a): return b if cv(a) else not_(b)
        if isc(b): return a if cv(b) else not_(a)
    for x, y in ((a, b), (b, a)):
        if isc(x) and y.op == 'ite' and isc(y.args[1]) and isc(y.args[2]):
            return ite(y.args[0], c(bool(cv(x) == cv(y.args[1]))), c(bool(cv(x) == cv(y.args[2]))))
    if b.id < a.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def ne(a, b): return not_(eq(a, b))
def not_(a):
    a = c(a)
    if isc(a): return c(not cv(a))
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return le(a.args[1], a.args[0])
    if a.op == 'le': return lt(a.args[1], a.args[0])
    return mk('not', (a,), 'B')
def and_(*xs):
    out = []
    for x in xs:
        x = c(x)
        if isc(x):
            if not cv(x): return FALSE
            continue
        ys = x.args if x.op == 'and' else (x,)
        for y in ys:
            if y not in out: out.append(y)
    for y in out:
        if y.op != 'and' and not_(y) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')
def or_(*xs):
    out = []
    for x in xs:
        x = c(x)
        if isc(x):
            if cv(x): return TRUE
            continue
        ys = x.args if x.op == 'or' else (x,)
        for y in ys:
            if y not in out: out.append(y)
    for y in out:
        if y.op != 'or' and not_(y) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)
def ite(cnd, a, b):
    a = c(a); b = c(b)
    if isc(cnd): return a if cv(cnd) else b
    if a is b: return a
    if cnd.op == 'not': return ite(cnd.args[0], b, a)
    if a.sort == 'B' or b.sort == 'B':
        return or_(and_(cnd, a), and_(not_(cnd), b))
    if a.op == 'ite' and a.args[0] is cnd: a = a.args[1]
    if b.op == 'ite' and b.args[0] is cnd: b = b.args[2]
    if a is b: return a
    s = a.sort if a.sort == b.sort else ('R' if 'U' not in (a.sort, b.sort) else 'U')
    return mk('ite', (cnd, a, b), s)
def max2(a, b): return ite(lt(a, b), b, a)      # std::max
def min2(a, b): return ite(lt(b, a), b, a)      # std::min
def br(cnd):
    cnd = c(cnd)
    if isc(cnd): return ONE if cv(cnd) else ZERO
    return ite(cnd, ONE, ZERO)

# ---------------------------------------------------------------- binders
_absmemo = {}
def abstract(t, v, depth=0):
    """replace free variable v by de Bruijn index"""
    memo = {}
    def go(t, d):
        if v not in t.fv: return t
        k = (t, d)
        r = memo.get(k)
        if r is not None: return r
        if t is v: r = mk('b', (d,), t.sort)
        else:
            bp = BIND.get(t.op, -1)
            r = mk(t.op, tuple((go(a, d + 1 if i == bp else d) if isinstance(a, T) else a) for i, a in enumerate(t.args)), t.sort)
        memo[k] = r
        return r
    return go(t, depth)

_instmemo = {}
def instantiate(body, x):
    """open a binder body: index 0 := x (x locally closed)"""
    key = (body, x)
    r = _instmemo.get(key)
    if r is not None: return r
    memo = {}
    def go(t, d):
        if t.nb <= d: return t
        k = (t, d)
        r = memo.get(k)
        if r is not None: return r
        if t.op == 'b':
            n = t.args[0]
            r = x if n == d else t
        else:
            bp = BIND.get(t.op, -1)
            r = rebuild(t, tuple((go(a, d + 1 if i == bp else d) if isinstance(a, T) else a) for i, a in enumerate(t.args)))
        memo[k] = r
        return r
    r = go(body, 0)
    _instmemo[key] = r
    return r

def rebuild(t, args):
    """rebuild with light simplification"""
    op = t.op
    if args == t.args: return t
    f = _builders.get(op)
    if f: return f(*args)
    return mk(op, args, t.sort)
_builders = {'add': add, 'mul': mul, 'inv': inv, 'lt': lt, 'le': le, 'eq': eq, 'not': not_, 'and': and_, 'or': or_,
             'ite': ite, 'idiv': idiv, 'imod': imod, 'floor': floor}

def bind(op, n, f, sort=None, vsort='I', **kw):
    """binder with a Python function as body"""
    n = c(n)
    v = fresh('b', vsort)
    body = c(f(v)) if callable(f) else f
    return bindv(op, n, v, body, sort)
def bindv(op, n, v, body, sort=None):
    body_a = abstract(body, v)
    if sort is None:
        sort = {'exists': 'B', 'forall': 'B', 'argmax': 'I', 'argmin': 'I'}.get(op, body.sort)
    if op in ('exists', 'forall') and isc(body):
        if cv(body) == (op == 'forall'): return body
    if op == 'sum' and isc(body) and cv(body) == 0: return ZERO
    if isc(n):
        if op == 'sum' and cv(n) == 1: return instantiate(body_a, ZERO)
        if op == 'sum' and cv(n) <= 0: return ZERO
    return mk(op, (n, body_a), sort)
def Sum(n, f): return bind('sum', n, f)
def Prod(n, f): return bind('prod', n, f)
def Max(n, f): return bind('max', n, f)
def Min(n, f): return bind('min', n, f)
def ArgMax(n, f): return bind('argmax', n, f, 'I')
def ArgMin(n, f): return bind('argmin', n, f, 'I')
def Exists(n, f): return bind('exists', n, f, 'B')
def Forall(n, f): return bind('forall', n, f, 'B')
def Count(n, f): return Sum(n, lambda k: br(f(k)))
def ForallU(f, vsort='R'):
    """unbounded universal over a sort (SMT only)"""
    v = fresh('q', vsort)
    return mk('all', (v, c(f(v))), 'B')
def Nth(f, i):
    v = fresh('b')
    return mk('nth', (abstract(c(f(v)), v), c(i)), 'I')
def Ksm(n, f, i):
    v = fresh('b')
    b = c(f(v))
    return mk('ksm', (c(n), abstract(b, v), c(i)), b.sort)
def Card(f, vsort='R'):
    v = fresh('b', vsort)
    return mk('card', (abstract(c(f(v)), v), vsort), 'I')
def Enum(f, k, vsort='R'):
    v = fresh('b', vsort)
    return mk('enum', (abstract(c(f(v)), v), c(k)), vsort)
def SumSet(has, f, vsort='R'):
    return Sum(Card(has, vsort), lambda k: f(Enum(has, k, vsort)))

def subst(t, m):
    """substitute free variables (dict T->T, values locally closed)"""
    keys = frozenset(m)
    memo = {}
    def go(t):
        if not (t.fv & keys): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'v': r = m.get(t, t)
        else: r = rebuild(t, tuple(go(a) if isinstance(a, T) else a for a in t.args))
        memo[t] = r
        return r
    return go(t)

def replace(t, m):
    """replace closed subterms (dict T->T, values locally closed)"""
    memo = dict(m)
    def go(t):
        r = memo.get(t)
        if r is None:
            r = t if t.op in ('c', 'v', 'b') else rebuild(t, tuple(go(a) if isinstance(a, T) else a for a in t.args))
            memo[t] = r
        return r
    return go(t)

def map_apps(t, f):
    """replace app nodes bottom-up (binder bodies are opened, so f sees locally closed terms): f(t)->T or None"""
    memo = {}
    def go(t, d):
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('c', 'v', 'b'): r = t
        else:
            bp = BIND.get(t.op, -1); args = []
            for i, a in enumerate(t.args):
                if not isinstance(a, T): args.append(a)
                elif i != bp or not a.nb: args.append(go(a, d))
                else:
                    bs = boundsort(a)
                    x = var('^%s%d' % (bs, d), bs)
                    o = instantiate(a, x); g = go(o, d + 1)
                    args.append(a if g is o else abstract(g, x))
            r = rebuild(t, tuple(args))
            if r.op == 'app':
                r2 = f(r)
                if r2 is not None: r = r2
        memo[t] = r
        return r
    return go(t, 0)
def boundsort(body):
    """sort of the variable bound as index 0 in body"""
    seen = set(); st = [(body, 0)]
    while st:
        t, d = st.pop()
        if t.nb <= d or (t, d) in seen: continue
        seen.add((t, d))
        if t.op == 'b':
            if t.args[0] == d: return t.sort
            continue
        bp = BIND.get(t.op, -1)
        for i, a in enumerate(t.args):
            if isinstance(a, T): st.append((a, d + 1 if i == bp else d))
    return 'I'

def shift(t, by, cut=0):
    memo = {}
    def go(t, d):
        if t.nb <= d: return t
        k = (t, d)
        r = memo.get(k)
        if r is not None: return r
        if t.op == 'b': r = mk('b', (t.args[0] + by,), t.sort)
        else:
            bp = BIND.get(t.op, -1)
            r = mk(t.op, tuple((go(a, d + 1 if i == bp else d) if isinstance(a, T) else a) for i, a in enumerate(t.args)), t.sort)
        memo[k] = r
        return r
    return go(t, cut)

def appnames(t):
    out = set(); seen = set(); st = [t]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'app': out.add(t.args[0])
        for a in t.args:
            if isinstance(a, T): st.append(a)
    return out
def subterms(t):
    seen = set(); st = [t]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t); yield t
        for a in t.args:
            if isinstance(a, T): st.append(a)

def show(t, names=(), prec=0):
    op = t.op; a = t.args
    s = lambda x: show(x, names)
    if op == 'c':
        return str(a[0]) if a[1] != 'S' else repr(a[0])
    if op == 'v': return a[0]
    if op == 'b': return names[-1 - a[0]] if a[0] < len(names) else '#%d' % a[0]
    if op == 'app': return '%s(%s)' % (a[0], ','.join(map(s, a[1:]))) if len(a) > 1 else a[0]
    if op == 'fn': return '%s(%s)' % (a[0], ','.join(map(s, a[1:])))
    if op == 'add': return '(%s + %s)' % (s(a[0]), s(a[1])) if len(a) == 2 else '(' + ' + '.join(map(s, a)) + ')'
    if op == 'mul': return '*'.join(map(s, a))
    if op == 'inv': return '1/(%s)' % s(a[0])
    if op == 'pw': return '%s^%s' % (s(a[0]), a[1])
    if op in BIND:
        bp = BIND[op]; nm = 'i%d' % len(names)
        parts = []
        for i, x in enumerate(a):
            if not isinstance(x, T): continue
            parts.append(('%s. ' % nm + show(x, names + (nm,))) if i == bp else s(x))
        return '%s{%s}' % (op, '; '.join(parts))
    if op in ('lt', 'le', 'eq'): return '(%s %s %s)' % (s(a[0]), {'lt': '<', 'le': '<=', 'eq': '='}[op], s(a[1]))
    if op == 'all': return 'all %s. %s' % (s(a[0]), s(a[1]))
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))
