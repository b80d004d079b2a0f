"""Contract registry: client functions over the public API, their contracts (requires/ensures) as terms."""
import math, random, re
from fractions import Fraction
from terms import *
import terms as TM
from values import *
from prove import Model, evalt, EvalErr

import os
REPO = os.environ.get('OPENML_REPO', '/repo')
PRELUDE = '#include "%s/src/core.hpp"' % REPO + r'''
namespace openml_client {
using M = Eigen::MatrixXd; using V = Eigen::VectorXd; using I = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
using VI = Eigen::VectorXi; using Idx = Eigen::Index; using std::size_t; using std::vector; using std::string; using std::pair; using std::tuple; using std::map; using std::set;
void vf_assert(bool c, const char* what);                                  // monitor assertion: an obligation in the proof, a check in the replay
template <class A, class B> void vf_same(const A& a, const B& b, const char* what);   // equal shape and elements
string vf_file(const vector<vector<double>>& rows);                        // a text file with these numbers, one row per line; returns its path
void vf_le(double a, double b, const char* what);                              // asserts a <= b (exact in the proof, up to rounding in a replay)
double vf_arb(int stream, long a, long b);                                 // arbitrary total function (uninterpreted in the proof)
bool vf_regular(const Eigen::MatrixXd& a);                                     // square and regular (well conditioned in a replay)
bool vf_zero(double x);                                                         // x = 0 (up to rounding in a replay)
bool vf_spd(const Eigen::MatrixXd& a);                                         // symmetric positive definite (well conditioned in a replay)
template <class T> T& vf_blank();                                               // an object whose constructor is not run in the proof: members hold no particular value
Eigen::MatrixXd vf_arbm(int stream, long a, long r, long c);                // the same, a matrix of arbitrary entries
'''

ALIAS = {'M': 'Eigen::MatrixXd', 'V': 'Eigen::VectorXd', 'I': 'Eigen::Matrix<long, -1, 1, 0, -1, 1>', 'VI': 'Eigen::Matrix<int, -1, 1, 0, -1, 1>', 'Idx': 'long',
         'string': 'std::string', 'vector': 'std::vector', 'pair': 'std::pair', 'tuple': 'std::tuple', 'map': 'std::map', 'set': 'std::set', 'size_t': 'std::size_t'}
def expand(t):
    t = re.sub(r'\bconst\b', '', t).replace('&', '').strip()
    return re.sub(r'(?<![\w:])(\w+)(?!\w)', lambda m: ALIAS.get(m.group(1), m.group(1)), t)

def split_sig(sig):
    i = sig.index('(')
    head = sig[:i].strip(); j = head.rfind(' ')
    ret, name = head[:j].strip(), head[j + 1:]
    body = sig[i + 1:sig.rindex(')')]
    ps = []; d = 0; cur = ''
    for ch in body:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: ps.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): ps.append(cur)
    out = []
    for p in ps:
        p = p.strip(); m = re.match(r'(.*?)(\w+)$', p, re.S)
        out.append((m.group(1).strip(), m.group(2)))
    return ret, name, out

MONITOR = 'vf_assert: '
class Fn:
    def __init__(s, prop, sig, body, **kw):
        s.prop = prop; s.sig = sig; s.body = body
        s.ret, s.name, s.params = split_sig(sig)
        s.tys = [classify(expand(t)) for t, _ in s.params]
        s.rty = classify(expand(s.ret))
        s.dims = {}
        for k, v in (kw.get('dims') or {}).items(): s.dims[k] = v.split()
        s.req = kw.get('req'); s.ens = kw.get('ens'); s.gen = kw.get('gen'); s.throws = kw.get('throws')
        s.prove = kw.get('prove', True); s.bounded = kw.get('bounded', False); s.note = kw.get('note', '')
        s.vals = kw.get('vals') or {}; s.min = kw.get('min') or {}
        s.oracle = kw.get('oracle'); s.covers = kw.get('covers') or []
        s.cases = kw.get('cases'); s.skip = kw.get('skip') or (lambda *a: False)
        s.timeout = kw.get('timeout', 60); s.opts = kw; s.tol = kw.get('tol', 1e-7)
        s.contract_only = kw.get('contract_only', False)
        s.known = kw.get('known')
    def text(s):
        return '%s %s' % (s.sig, s.body)
    # --- symbolic inputs
    def symbolic(s):
        args = []; facts = []
        seen = set()
        for (t, nm), ty in zip(s.params, s.tys):
            v = s.symarg(nm, ty, facts, seen)
            args.append(v)
        return args, facts
    def dimvar(s, d, facts, seen):
        if re.fullmatch(r'\d+', d): return c(int(d))
        if '+' in d: a, b = d.split('+'); return add(s.dimvar(a, facts, seen), c(int(b)))
        v = var(d, 'I')
        if d not in seen:
            seen.add(d); facts.append(le(c(s.min.get(d, 1)), v))
        return v
    def symarg(s, nm, ty, facts, seen):
        dm = s.dims.get(nm)
        if dm is None:
            return symval(nm, ty, (), facts)
        if ty[0] == 'mat':
            ds = [s.dimvar(d, facts, seen) for d in dm]
            if ty[2] == 'col': r, cc = ds[0], ONE
            elif ty[2] == 'row': r, cc = ONE, ds[0]
            else: r, cc = ds
            return Mat(r, cc, lambda i, j: app(nm, (i, j), ty[1]), ty[3], ty[1], ty[2])
        if ty[0] == 'vec':
            n = s.dimvar(dm[0], facts, seen)
            v = symval(nm, ty, (), [])
            if len(dm) == 3 and ty[1][0] == 'mat':
                a, b = s.dimvar(dm[1], facts, seen), s.dimvar(dm[2], facts, seen); e = ty[1]
                return Vec(n, lambda i: Mat(a, b, lambda p, q: app(nm + '[]', (c(i), p, q), e[1]), e[3], e[1], e[2]), ty[1])
            if len(dm) > 1 and ty[1][0] == 'vec':
                m = s.dimvar(dm[1], facts, seen)
                return Vec(n, lambda i: Vec(m, v.f(i).f, ty[1][1]), ty[1])
            return Vec(n, v.f, ty[1])
        raise ValueError('dims')
    def bind_inputs(s, M, conc):
        """bind concrete argument values in the numeric model"""
        for (t, nm), ty, x in zip(s.params, s.tys, conc):
            bindval(M, nm, ty, x)
            for k, d in enumerate(s.dims.get(nm, [])):
                if re.fullmatch(r'\d+', d) or '+' in d: continue
                if ty[0] == 'mat':
                    n = x_rows(x) if k == 0 and ty[2] != 'row' else x_cols(x, ty)
                elif ty[0] == 'vec' and k > 0 and ty[1][0] == 'mat':
                    if not x: continue
                    n = x_rows(x[0]) if k == 1 else x_cols(x[0], ty[1])
                elif ty[0] == 'vec': n = len(x) if k == 0 else (len(x[0]) if len(x) else 0)
                M.vars[d] = n

def x_rows(x): return x['r'] if isinstance(x, dict) else len(x)
def x_cols(x, ty):
    if isinstance(x, dict): return x['c']
    if ty[2] == 'col': return 1
    if ty[2] == 'row': return len(x)
    return len(x[0]) if len(x) else 0
class DM(dict):
    """concrete matrix with explicit dims: {'r':..,'c':..,'e':[[...]]}"""
def mk_dm(r, cc, rows): return {'r': r, 'c': cc, 'e': rows}

def symval(nm, ty, idx=(), facts=None):
    k = ty[0]
    def A(n, sort): return app(n, idx, sort) if idx else var(n, sort)
    if k == 'I':
        v = A(nm, 'I')
        if facts is not None and not idx and len(ty) > 1 and ty[1]: facts.append(le(ZERO, v))
        return v
    if k in 'RBU' and len(k) == 1: return A(nm, k)
    if k == 'mat':
        r = ONE if ty[2] == 'row' else A(nm + '.rows', 'I'); cc = ONE if ty[2] == 'col' else A(nm + '.cols', 'I')
        if facts is not None and not idx: facts += [f for f in (le(ZERO, r), le(ZERO, cc)) if not isc(f)]
        return Mat(r, cc, lambda i, j: app(nm, idx + (i, j), ty[1]), ty[3], ty[1], ty[2])
    if k == 'vec':
        n = A(nm + '.len', 'I')
        if facts is not None and not idx:
            facts.append(le(ZERO, n))
            if ty[1][0] == 'vec': facts.append(Forall(n, lambda i: le(ZERO, app(nm + '[].len', (i,), 'I'))))
        return Vec(n, lambda i: symval(nm + '[]', ty[1], idx + (c(i),)), ty[1])
    if k == 'map':
        from interp import merge, default_value
        def at(q):
            v = symval(nm + '@', ty[2], idx + (c(q),))
            try: return merge(app(nm + '.has', idx + (c(q),), 'B'), v, default_value(ty[2], None))
            except Exception: return v
        return MapV(lambda q: app(nm + '.has', idx + (c(q),), 'B'), at, ty[1], ty[2], ty[3])
    if k == 'set': return SetV(lambda q: app(nm + '.has', idx + (c(q),), 'B'), ty[1], ty[2])
    if k == 'tup': return Tup([symval('%s.%d' % (nm, i), t, idx, facts) for i, t in enumerate(ty[1])])
    raise Unsupported('symbolic input of type %s' % (ty,))

def bindval(M, nm, ty, x):
    """bind concrete value x under name nm: apps get a lookup function over nested python data"""
    def reg(n, idxs, sort, get):
        if idxs == 0: M.vars[n] = get(()); return
        M.funs[n] = lambda *a: get(a)
    def go(nm, ty, n, get):
        k = ty[0]
        if k in 'IRBU' and len(k) == 1: reg(nm, n, k, lambda a: get(a)); return
        if k == 'mat':
            if ty[2] != 'row': reg(nm + '.rows', n, 'I', lambda a: x_rows(get(a)) if ty[2] != 'row' else 1)
            if ty[2] != 'col': reg(nm + '.cols', n, 'I', lambda a: x_cols(get(a), ty))
            def el(a):
                m = get(a[:n]); i, j = a[n], a[n + 1]
                if isinstance(m, dict): m = m['e']; row = True
                else: row = False
                if ty[2] == 'col' and not row: return elem(m, i)
                if ty[2] == 'row' and not row: return elem(m, j)
                return elem(elem(m, i), j)
            M.funs[nm] = lambda *a: el(a)
            return
        if k == 'vec':
            reg(nm + '.len', n, 'I', lambda a: len(get(a)))
            go(nm + '[]', ty[1], n + 1, lambda a: elem(get(a[:-1]), a[-1])); return
        if k == 'map':
            M.funs[nm + '.has'] = lambda *a: a[-1] in get(a[:-1])
            def at(a):
                d = get(a[:-1])
                if a[-1] not in d: raise EvalErr('key')
                return d[a[-1]]
            go(nm + '@', ty[2], n + 1, at); return
        if k == 'set':
            M.funs[nm + '.has'] = lambda *a: a[-1] in get(a[:-1]); return
        if k == 'tup':
            for i, t in enumerate(ty[1]): go('%s.%d' % (nm, i), t, n, lambda a, i=i: get(a)[i])
            return
        raise EvalErr('bind ' + str(ty))
    go(nm, ty, 0, lambda a: x)
class OutOfRange(EvalErr): pass
def elem(m, i):
    if not 0 <= i < len(m): raise OutOfRange('index %s of %d' % (i, len(m)))
    return m[i]

ANY = object()
class Stub:
    """contract of a /repo function, written as a client function: a call of the function is checked against (and replaced by) the client's
    assertions and effects.  Its first parameter is the client-defined object reachable from the receiver (the ghost monitor)."""
    def __init__(s, name): s.name = name
    def inline(s, it, fn, this, args, st): return False
    def apply(s, it, fn, this, args, st):
        from values import Obj, LV
        o = it.read(this, st)
        k = [n for n, v in o.f.items() if isinstance(it.read(v, st), Obj) and 'openml_client' in it.read(v, st).cls.qual]
        stub = it.u.funcs['openml_client::' + s.name][0]
        return it.call(stub, None, [LV(this.cell, this.path + (('f', k[0]),))] + list(args), st)
class Prop:
    def __init__(s, pid, title=''):
        s.id = pid; s.fns = []; s.cpp = ''; s.lemmas = []; s.assumptions = []; s.uncovered = []; s.funs = {}
        s.setup = None; s.incs = []; s.pre = ''
    def include(s, *fs): s.incs += fs
    def code(s, text): s.cpp += text
    def fn(s, sig, body, **kw):
        f = Fn(s, sig, body, **kw); s.fns.append(f); return f
    def driver(s):
        inc = ''.join('\n#include "%s/src/%s"' % (REPO, f) for f in s.incs)
        return s.pre + PRELUDE.replace('\nnamespace openml_client {', inc + '\nnamespace openml_client {', 1) + s.cpp + '\n' + '\n'.join(f.text() for f in s.fns) + '\n}\n'

# ---- contract building blocks -----------------------------------------------------
def mat_is(r, rows, cols, f, name='value'):
    """r is the rows x cols matrix with entries f(i,j)"""
    out = []
    if r.ct != 'row': out.append((name + ': rows', eq(r.rows, rows)))
    if r.ct != 'col': out.append((name + ': cols', eq(r.cols, cols)))
    rows, cols = c(rows), c(cols)
    if r.ct == 'col': out.append((name, Forall(rows, lambda i: eq(r.f(i, ZERO), f(i, ZERO)))))
    elif r.ct == 'row': out.append((name, Forall(cols, lambda j: eq(r.f(ZERO, j), f(ZERO, j)))))
    else: out.append((name, Forall(rows, lambda i: Forall(cols, lambda j: eq(r.f(i, j), f(i, j))))))
    return out
def vec_is(r, n, f, name='value'):
    return mat_is(r, n, 1, lambda i, j: f(i), name) if r.ct != 'row' else mat_is(r, 1, n, lambda i, j: f(j), name)
def list_is(r, n, f, name='value'):
    return [(name + ': length', eq(r.n, n)), (name, Forall(c(n), lambda i: eq(r.f(i), f(i))))]
def V_(v):
    """element accessor of a column vector"""
    return lambda i: v.f(c(i), ZERO)
def dot(n, f, g): return Sum(n, lambda k: mul(f(k), g(k)))
def all_in(n, f, lo, hi): return Forall(n, lambda i: and_(le(c(lo), f(i)), lt(f(i), c(hi))))

# ---- concrete inputs --------------------------------------------------------------
GRID = [-3, -2, -1.5, -1, -0.5, -0.25, 0, 0, 0.25, 0.5, 1, 1, 1.5, 2, 3]
class G:
    def __init__(s, seed, big=0.05, near=0.02): s.r = random.Random(seed); s.big = big; s.near = near
    def dim(s, lo=1, hi=6):
        if s.r.random() < s.big: return s.r.randint(max(lo, 7), max(lo, 7) + 12)
        return s.r.choice([lo, lo, lo + 1] + list(range(lo, hi + 1)))
    def num(s, lo=None, hi=None):
        if s.r.random() < s.near: return s.r.choice(GRID) + s.r.choice([-1, 1]) * 2.0 ** -s.r.choice([7, 9, 11, 13, 15])   # almost a grid value
        if s.r.random() < 0.7: return float(s.r.choice(GRID))
        return s.r.randint(-4000, 4000) / 1024.0
    def vec(s, n, vals=None):
        if vals is not None: return [s.pick(vals) for _ in range(n)]
        mode = s.r.random()
        if mode < 0.1: v = s.num(); return [v] * n
        if mode < 0.3: return [float(s.r.choice([0, 1, 2])) for _ in range(n)]
        return [s.num() for _ in range(n)]
    def pick(s, vals):
        return vals(s) if callable(vals) else s.r.choice(vals)
    def mat(s, n, m, vals=None):
        return {'r': n, 'c': m, 'e': [s.vec(m, vals) for _ in range(n)]}
    def ivec(s, n, lo, hi): return [s.r.randint(lo, hi) for _ in range(n)]
    def auto(s, f):
        """inputs from declared dims / vals"""
        d = {}
        def dm(x):
            if re.fullmatch(r'\d+', x): return int(x)
            if '+' in x: return dm(x.split('+')[0]) + int(x.split('+')[1])
            if x not in d:
                lo = f.min.get(x, 1)
                d[x] = s.dim(lo, max(6, lo + 3))
            return d[x]
        out = []
        for (t, nm), ty in zip(f.params, f.tys):
            vals = f.vals.get(nm); ds = [dm(x) for x in f.dims.get(nm, [])]
            out.append(s.one(ty, ds, vals))
        return out
    def one(s, ty, ds, vals):
        k = ty[0]
        if k == 'I': return s.pick(vals) if vals else s.r.randint(0, 5)
        if k == 'R': return float(s.pick(vals)) if vals else s.num()
        if k == 'B': return bool(s.pick(vals)) if vals else s.r.random() < 0.5
        if k == 'U': return s.pick(vals) if vals else s.r.choice(['a', 'b', 'cd'])
        if k == 'mat':
            if ty[1] == 'I' and vals is None: vals = [0, 1, 2, 3]
            n = ds[0] if ds else s.dim(0 if False else 1)
            if ty[2] in ('col', 'row'):
                v = s.vec(n, vals)
                return v
            return s.mat(n, ds[1] if len(ds) > 1 else s.dim(), vals)
        if k == 'vec':
            n = ds[0] if ds else s.dim(0)
            return [s.one(ty[1], ds[1:], vals) for _ in range(n)]
        if k == 'tup': return tuple(s.one(t, [], vals) for t in ty[1])
        raise ValueError('gen ' + str(ty))

# ---- numeric evaluation of contracts (tolerant at positive positions) ---------------
def num_eq(a, b, tol):
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)): return a == b
    if a != a or b != b: return False
    if a == b: return True
    a, b = float(a), float(b)
    if abs(a) == math.inf or abs(b) == math.inf: return False
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
def holds(t, M, tol=1e-7, env=()):
    """truth of a contract in a concrete model; comparisons of reals at positive polarity are tolerant"""
    op = t.op; a = t.args
    if op == 'c': return bool(a[0])
    if op == 'and': return all(holds(x, M, tol) for x in a)
    if op == 'or':
        # guards (negated literals, integer conditions) first
        for x in sorted(a, key=lambda x: x.op not in ('not', 'eq', 'lt', 'le')):
            if x.op in ('not',) or (x.op in ('lt', 'le', 'eq') and x.args[0].sort != 'R' and x.args[1].sort != 'R'):
                if evalt(x, M): return True
        return any(holds(x, M, tol) for x in a if x.op != 'not')
    if op == 'forall':
        n = evalt(a[0], M)
        return all(holds(instantiate(a[1], c(k)), M, tol) for k in range(n))
    if op == 'exists':
        n = evalt(a[0], M)
        return any(holds(instantiate(a[1], c(k)), M, tol) for k in range(n))
    if op == 'ite': return holds(a[1], M, tol) if evalt(a[0], M) else holds(a[2], M, tol)
    if op in ('eq', 'lt', 'le') and (a[0].sort == 'R' or a[1].sort == 'R'):
        x, y = evalt(a[0], M), evalt(a[1], M)
        if op == 'eq': return num_eq(x, y, tol)
        if x != x or y != y: return False
        return x <= y or num_eq(x, y, tol)
    if op == 'eq' and a[0].sort == 'B': return bool(evalt(a[0], M)) == bool(evalt(a[1], M))
    return bool(evalt(t, M))
def mul(*xs):
    r = c(xs[0])
    for x in xs[1:]: r = TM.mul(r, x)
    return r
def add(*xs):
    r = c(xs[0])
    for x in xs[1:]: r = TM.add(r, x)
    return r
