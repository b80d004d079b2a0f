"""Symbolic execution / VC generation over the clang AST."""
import itertools, time, re
from fractions import Fraction
from terms import *
import terms as TM
from norm import *
from prove import *
from values import *
import astload
import matalg
from astload import body_of, params_of

class Oblig:
    def __init__(s, kind, cond, ctx, where, vars_=None):
        s.kind = kind; s.cond = cond; s.ctx = ctx; s.where = where; s.status = None; s.leaves = []
class State:
    __slots__ = ('store', 'ctx', 'path')
    def __init__(s, store, ctx, path=()): s.store = store; s.ctx = ctx; s.path = path
    def copy(s): return State(dict(s.store), s.ctx, s.path)
    def assume(s, f):
        s.ctx = s.ctx.extend(f)
    def branch(s, cnd):
        r = s.copy()
        r.ctx = s.ctx.extend(cnd); r.path = s.path + (cnd,)
        return r
class Exit:
    __slots__ = ('kind', 'st', 'val')
    def __init__(s, kind, st, val=None): s.kind = kind; s.st = st; s.val = val
class LoopInfo: pass
UNINIT = 'uninit'
W64 = 2 ** 64

def default_value(ty, interp):
    k = ty[0]
    if k == 'I': return ZERO
    if k == 'R': return c(0, 'I')
    if k == 'B': return FALSE
    if k == 'U': return c('')
    if k == 'mat':
        r = c(int(ty[4][0])) if ty[4][0] else ZERO
        cc = c(int(ty[4][1])) if ty[4][1] else ZERO
        return interp.uninit_mat(r, cc, ty)
    if k == 'vec': return Vec(ZERO, lambda i: generic_default(ty[1], interp), ty[1])
    if k == 'map': return MapV(lambda q: FALSE, lambda q: default_value(ty[2], interp), ty[1], ty[2], ty[3])
    if k == 'set': return SetV(lambda q: FALSE, ty[1], ty[2])
    if k == 'tup': return Tup([default_value(x, interp) for x in ty[1]])
    if k in ('ptr', 'sptr'): return Ptr(None, k == 'sptr')
    if k == 'cls': return interp.default_class(ty[1])
    return Opaque(str(ty))
def generic_default(ty, interp):
    return default_value(ty, interp)

# ---- shapes: flatten a value to scalar component functions ------------------
def flatten(v, pre=()):
    """-> list of (name, idxsorts, sort, fn(*idx))"""
    if isinstance(v, T): return [('', (), v.sort, lambda: v)]
    if isinstance(v, Mat):
        return [('rows', (), 'I', lambda: v.rows), ('cols', (), 'I', lambda: v.cols), ('el', ('I', 'I'), v.es, lambda i, j: v.f(i, j))]
    if isinstance(v, Vec):
        out = [('len', (), 'I', lambda: v.n)]
        i0 = fresh('z')
        sub = flatten(v.f(i0))
        for k, (nm, ix, so, _) in enumerate(sub):
            def g(i, *r, k=k): return flatten(v.f(i))[k][3](*r)
            out.append(('[]' + nm, ('I',) + ix, so, g))
        return out
    if isinstance(v, MapV):
        ks = v.kty[0]
        if ks not in 'IRBU': raise Unsupported('map key type')
        out = [('has', (ks,), 'B', lambda q: v.has(q))]
        q0 = fresh('z', ks)
        for k, (nm, ix, so, _) in enumerate(flatten(v.f(q0))):
            def g(q, *r, k=k): return flatten(v.f(q))[k][3](*r)
            out.append(('@' + nm, (ks,) + ix, so, g))
        return out
    if isinstance(v, SetV):
        ks = v.kty[0]
        if ks not in 'IRBU': raise Unsupported('set key type')
        return [('has', (ks,), 'B', lambda q: v.has(q))]
    if isinstance(v, Tup):
        out = []
        for n, x in enumerate(v.xs):
            for nm, ix, so, g in flatten(x): out.append(('%d.%s' % (n, nm), ix, so, g))
        return out
    if isinstance(v, Obj):
        out = []
        for n in sorted(v.f):
            for nm, ix, so, g in flatten(v.f[n]): out.append(('%s.%s' % (n, nm), ix, so, g))
        return out
    if isinstance(v, It):
        return [('pos', (), 'I', lambda: v.pos)]
    return []
def unflatten(proto, prov):
    """rebuild a value like proto; prov(name, idxs)->term gives component values"""
    if isinstance(proto, T): return prov('', ())
    if isinstance(proto, Mat):
        return Mat(prov('rows', ()), prov('cols', ()), lambda i, j: prov('el', (c(i), c(j))), proto.kind, proto.es, proto.ct)
    if isinstance(proto, Vec):
        return Vec(prov('len', ()), lambda i: unflatten(proto.f(fresh('z')), lambda nm, ix: prov('[]' + nm, (c(i),) + ix)), proto.ety)
    if isinstance(proto, MapV):
        return MapV(lambda q: prov('has', (c(q),)), lambda q: unflatten(proto.f(fresh('z', proto.kty[0])), lambda nm, ix: prov('@' + nm, (c(q),) + ix)), proto.kty, proto.vty, proto.ordered)
    if isinstance(proto, SetV): return SetV(lambda q: prov('has', (c(q),)), proto.kty, proto.ordered)
    if isinstance(proto, Tup):
        return Tup([unflatten(x, (lambda nm, ix, n=n: prov('%d.%s' % (n, nm), ix))) for n, x in enumerate(proto.xs)])
    if isinstance(proto, Obj):
        return Obj(proto.cls, {n: unflatten(x, (lambda nm, ix, n=n: prov('%s.%s' % (n, nm), ix))) for n, x in proto.f.items()})
    if isinstance(proto, It): return It(proto.src, prov('pos', ()), proto.kind)
    return proto
def mapval(v, g):
    """apply a term transformer to every component, lazily"""
    if isinstance(v, T): return g(v)
    if isinstance(v, Mat): return Mat(g(v.rows), g(v.cols), lambda i, j: g(v.f(i, j)), v.kind, v.es, v.ct, None if v.ms is None else (lambda k: g(v.ms(k))))
    if isinstance(v, Vec): return Vec(g(v.n), lambda i: mapval(v.f(i), g), v.ety, None if v.ms is None else (lambda k: g(v.ms(k))))
    if isinstance(v, MapV): return MapV(lambda q: g(v.has(q)), lambda q: mapval(v.f(q), g), v.kty, v.vty, v.ordered)
    if isinstance(v, SetV): return SetV(lambda q: g(v.has(q)), v.kty, v.ordered)
    if isinstance(v, Tup): return Tup([mapval(x, g) for x in v.xs])
    if isinstance(v, Obj): return Obj(v.cls, {n: mapval(x, g) for n, x in v.f.items()})
    if isinstance(v, It): return It(v.src if isinstance(v.src, LV) else mapval(v.src, g), g(v.pos), v.kind)
    if isinstance(v, VWise): return VWise(v.src if isinstance(v.src, LV) else mapval(v.src, g), v.axis)
    return v
def merge(cnd, a, b):
    """value-level if-then-else"""
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T): return ite(cnd, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(ite(cnd, a.rows, b.rows), ite(cnd, a.cols, b.cols), lambda i, j: ite(cnd, a.f(i, j), b.f(i, j)), a.kind, 'R' if 'R' in (a.es, b.es) else a.es, a.ct if a.ct == b.ct else 'mat')
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(ite(cnd, a.n, b.n), lambda i: merge(cnd, a.f(i), b.f(i)), a.ety)
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(lambda q: ite(cnd, a.has(q), b.has(q)), lambda q: merge(cnd, a.f(q), b.f(q)), a.kty, a.vty, a.ordered)
    if isinstance(a, SetV) and isinstance(b, SetV): return SetV(lambda q: ite(cnd, a.has(q), b.has(q)), a.kty, a.ordered)
    if isinstance(a, Tup) and isinstance(b, Tup): return Tup([merge(cnd, x, y) for x, y in zip(a.xs, b.xs)])
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls: return Obj(a.cls, {n: merge(cnd, a.f[n], b.f[n]) for n in a.f})
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind: return It(a.src, ite(cnd, a.pos, b.pos), a.kind)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None and a.lv.cell == b.lv.cell and a.lv.path == b.lv.path: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is None and b.lv is None: return a
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a
    if isinstance(a, Lazy) or isinstance(b, Lazy): return Opaque('stale')
    if isinstance(a, Lam) and isinstance(b, Lam) and a.node is b.node: return a
    if isinstance(a, Decomp) and isinstance(b, Decomp) and a.kind == b.kind and a.m is b.m: return a
    return Opaque('merge')

import os
DEBUG = os.environ.get('VF_DEBUG')
class Interp:
    def __init__(s, unit, contracts=None, target=None, deadline=None):
        s.u = unit; s.contracts = contracts or {}; s.target = target
        s.obls = []; s.collect = True; s.cells = itertools.count(1)
        s.cellty = {}
        s.uns = set()      # cells of unsigned variables
        s.frames = []; s.loops = []; s.trace = []; s.used_contracts = set(); s.inlined = set(); s.libs = set(); s.assumed = set()
        s.N = NF(deadline); s.deadline = deadline
        s.globals = {}
        s.hooks = {}; s.ma = matalg.MatAlg(s)
        s.loop_depth = 0; s.loopvars = []; s.sites = {}; s.lnodes = []
        s.frozen = []; s.real = set()
        s.no_closed = False     # keep running extrema and conditional resets as symbols (related by equality invariants only)
        s.entry_ctx = ROOT

    # ---------------------------------------------------------------- util
    def new_cell(s, st, val, name='tmp'):
        k = (next(s.cells), name)
        st.store[k] = val
        return k
    def oblige(s, kind, cond, st, node=None):
        cond = c(cond)
        if isc(cond) and cv(cond): 
            if s.collect: s.obls.append(Oblig(kind, cond, st.ctx, s.where(node)))
            return
        if s.collect: s.obls.append(Oblig(kind, cond, st.ctx, s.where(node)))
    def where(s, node):
        f = s.frames[-1]['fn'].qual if s.frames else '?'
        return f
    # symbols introduced during execution are functions of the program point (call path) and of all enclosing iterations
    def skname(s, tag, node=None):
        key = (tuple(f.get('site') for f in s.frames), id(node) if node is not None else None, tag)
        if node is None: return '%s!%d' % (tag, next(TM._fresh)), tuple(s.loopvars)
        k = s.sites.get(key)
        if k is None: k = s.sites[key] = (next(TM._fresh), node)
        return '%s!%d' % (tag, k[0]), tuple(s.loopvars)
    def sk(s, tag, node, sort='I', idx=()):
        nm, lv = s.skname(tag, node)
        a = lv + tuple(idx)
        return app(nm, a, sort) if a else var(nm, sort)
    def uninit_mat(s, r, cc, ty, node=None):
        nm, lv = s.skname('uninit', node)
        return Mat(r, cc, lambda i, j: app(nm, lv + (i, j), ty[1]), ty[3], ty[1], ty[2])
    def fresh_mat(s, name, rows, cols, es='R', ct='mat', kind='M', node=None):
        nm, lv = s.skname(name, node)
        return Mat(rows, cols, lambda i, j: app(nm, lv + (i, j), es), kind, es, ct)

    # ---------------------------------------------------------------- lvalues
    def read(s, lv, st):
        if isinstance(lv, Lazy): return s.force(lv, st)
        if not isinstance(lv, LV): return lv
        if lv.cell not in st.store: raise Unsupported('dangling cell %s' % (lv.cell,))
        v = st.store[lv.cell]
        if isinstance(v, Lazy): v = s.force(v, st)
        for acc in lv.path: v = s.get1(v, acc, st)
        if isinstance(v, LV): return s.read(v, st)
        return v
    def force(s, lz, st):
        for cell, val in lz.deps:
            if st.store.get(cell) is not val.v: raise Unsupported('lazy expression outlives a change of its operand')
        return lz.v
    def get1(s, v, acc, st):
        k = acc[0]
        if k == 'f':
            if isinstance(v, Obj):
                if acc[1] not in v.f: raise Unsupported('field %s of %s (has %s)' % (acc[1], v.cls.qual if v.cls is not None else None, list(v.f)))
                return v.f[acc[1]]
            if isinstance(v, Tup): return v.xs[{'first': 0, 'second': 1}[acc[1]] if isinstance(acc[1], str) else acc[1]]
            raise Unsupported('field of %s' % type(v).__name__)
        if k == 'el': return v.f(acc[1], acc[2])
        if k == 'vi': return v.f(acc[1])
        if k == 'key': return v.f(acc[1])
        if k == 'tup': return v.xs[acc[1]]
        if k == 'blk':
            r0, c0, nr, nc, ct = acc[1:]
            return Mat(nr, nc, lambda i, j: v.f(add(i, r0), add(j, c0)), v.kind, v.es, ct)
        if k == 'T': return v.T()
        if k == 'kind': return v.with_(kind=acc[1])
        if k == 'cast': return v
        if k == 'diag': return Mat(ite(lt(v.rows, v.cols), v.rows, v.cols), ONE, lambda i, j: v.f(i, i), v.kind, v.es, 'col')
        if k == 'noalias': return v
        raise Unsupported('get ' + k)
    def write(s, lv, new, st, node=None):
        if not isinstance(lv, LV): raise Unsupported('assignment to rvalue')
        if lv.cell not in st.store: raise Unsupported('dangling cell')
        old = st.store[lv.cell]
        if isinstance(old, LV): return s.write(LV(old.cell, old.path + lv.path), new, st, node)
        # follow reference stored along the path
        st.store[lv.cell] = s.set1(old, lv.path, new, st)
    def set1(s, v, path, new, st):
        if not path: return new
        acc = path[0]; k = acc[0]
        if isinstance(v, LV): raise Unsupported('nested reference write')
        inner = s.set1(s.get1(v, acc, st), path[1:], new, st)
        if k == 'f':
            if isinstance(v, Tup):
                i = {'first': 0, 'second': 1}[acc[1]] if isinstance(acc[1], str) else acc[1]
                return Tup(v.xs[:i] + (inner,) + v.xs[i + 1:])
            d = dict(v.f); d[acc[1]] = inner
            return Obj(v.cls, d)
        if k == 'tup': return Tup(v.xs[:acc[1]] + (inner,) + v.xs[acc[1] + 1:])
        if k == 'el':
            r, cc = acc[1], acc[2]
            if v.ct == 'col': return v.with_(f=lambda i, j: ite(eq(i, r), inner, v.f(i, j)))
            if v.ct == 'row': return v.with_(f=lambda i, j: ite(eq(j, cc), inner, v.f(i, j)))
            return v.with_(f=lambda i, j: ite(and_(eq(i, r), eq(j, cc)), inner, v.f(i, j)))
        if k == 'vi':
            ix = acc[1]
            return Vec(v.n, lambda i: merge(eq(i, ix), inner, v.f(i)), v.ety)
        if k == 'key':
            q = acc[1]
            return MapV(lambda x: or_(v.has(x), eq(x, q)), lambda x: merge(eq(x, q), inner, v.f(x)), v.kty, v.vty, v.ordered)
        if k == 'blk':
            r0, c0, nr, nc, ct = acc[1:]
            cnds = lambda i, j: and_(*([le(r0, i), lt(i, add(r0, nr))] if not (v.ct == 'row') else []), *([le(c0, j), lt(j, add(c0, nc))] if not (v.ct == 'col') else []))
            def cnd(i, j):
                xs = []
                if isc(nr) and cv(nr) == 1: xs.append(eq(i, r0)) if v.ct != 'row' else None
                elif v.ct != 'row' and not (r0 is ZERO and nr is v.rows): xs += [le(r0, i), lt(i, add(r0, nr))]
                if isc(nc) and cv(nc) == 1: xs.append(eq(j, c0)) if v.ct != 'col' else None
                elif v.ct != 'col' and not (c0 is ZERO and nc is v.cols): xs += [le(c0, j), lt(j, add(c0, nc))]
                return and_(*xs)
            def f(i, j):
                i = c(i); j = c(j)
                ii = ZERO if isc(nr) and cv(nr) == 1 else sub(i, r0)
                jj = ZERO if isc(nc) and cv(nc) == 1 else sub(j, c0)
                return ite(cnd(i, j), inner.f(ii, jj), v.f(i, j))
            return v.with_(f=f)
        if k == 'T': return v.with_(f=lambda i, j: inner.f(j, i), rows=inner.cols, cols=inner.rows)
        if k == 'kind': return inner.with_(kind=v.kind)
        if k in ('cast', 'noalias'): return inner
        if k == 'diag': return v.with_(f=lambda i, j: ite(eq(i, j), inner.f(i, ZERO), v.f(i, j)))
        raise Unsupported('set ' + k)

    # ---------------------------------------------------------------- calls
    def call(s, fn, this, args, st, node=None):
        """execute user function fn (FunctionDecl with body); returns value; st updated in place"""
        q = fn.qual
        ct = s.contracts.get(q)
        if ct is not None and q != s.target and not ct.inline(s, fn, this, args, st):
            s.used_contracts.add(q)
            return ct.apply(s, fn, this, args, st)
        if sum(1 for f in s.frames if f['fn'] is fn) >= 1: raise Unsupported('recursion in ' + q)
        if len(s.frames) > 40: raise Unsupported('call depth')
        if s.deadline and time.time() > s.deadline: raise Budget('time')
        s.inlined.add(q)
        env = {}
        for p, a in zip(params_of(fn), args):
            env[p.id] = s.bind_param(p, a, st)
        frame = {'fn': fn, 'env': env, 'this': this, 'exits': [], 'site': (id(node), id(fn))}
        s.frames.append(frame)
        try:
            body = body_of(fn)
            st0path = st.path
            nst = s.stmt(body, st.copy())
            rets = [e for e in frame['exits'] if e.kind == 'return']
            throws = [e for e in frame['exits'] if e.kind == 'throw']
        finally: s.frames.pop()
        if nst is not None and rets and fn.kind in ('FunctionDecl', 'CXXMethodDecl') and not fn.type.startswith('void ('):
            s.oblige('control does not run off the end of a function that returns a value', FALSE, nst, node); nst = None
        if nst is not None: rets.append(Exit('return', nst, None))
        for e in throws:
            if s.frames: s.frames[-1]['exits'].append(e)
            else: s.top_throws.append(e)
        return s.join_returns(rets, st)
    def join_returns(s, rets, st):
        if not rets:
            return s.dead(st)
        base = st.path
        acc = rets[-1]; 
        stt, val = acc.st, acc.val
        for e in reversed(rets[:-1]):
            cnd = and_(*e.st.path[len(base):])
            nst = s.merge_states(cnd, e.st, stt, st)
            val = e.val if val is None and e.val is None else merge(cnd, s.read(e.val, e.st) if e.val is not None else Opaque('void'), s.read(val, stt) if val is not None else Opaque('void'))
            stt = nst
        st.store = stt.store; 
        if len(rets) == 1:
            st.ctx = stt.ctx; st.path = stt.path
        else:
            st.ctx = stt.ctx; st.path = base if not s.partial_exits(rets, base) else base
        return val
    def partial_exits(s, rets, base): return False
    def dead(s, st):
        st.ctx = st.ctx.extend(FALSE)
        return Opaque('dead')
    def merge_states(s, cnd, a, b, base):
        """a under cnd, b otherwise"""
        store = {}
        for k in a.store:
            if k in b.store:
                x, y = a.store[k], b.store[k]
                store[k] = x if x is y else s.merge_cell(cnd, x, y)
            # cells existing on one side only stay reachable through references of that side
            else: store[k] = a.store[k]
        for k in b.store:
            if k not in store: store[k] = b.store[k]
        r = State(store, base.ctx, base.path)
        bf = len(base.ctx.allfacts())
        # facts common to both sides, conditional otherwise
        fa = [f for f in a.ctx.allfacts()[bf:]]; fb = [f for f in b.ctx.allfacts()[bf:]]
        new = []
        sa, sb = set(fa), set(fb)
        for f in fa:
            if f in sb: new.append(f)
        for f in fa:
            if f not in sb and f is not cnd: new.append(implies(cnd, f))
        for f in fb:
            if f not in sa: new.append(implies(not_(cnd), f))
        new = [f for f in new if not isc(f)]
        if new: r.ctx = base.ctx.extend(*new)
        return r
    def merge_cell(s, cnd, x, y):
        if isinstance(x, LV) and isinstance(y, LV) and x.cell == y.cell and x.path == y.path: return x
        return merge(cnd, x, y)
    def bind_param(s, p, a, st):
        t = p.ctype
        isref = t.rstrip().endswith('&')
        if a is DEFAULTARG:
            init = [x for x in p.inner if x is not None and not x.kind.endswith('Attr')]
            if not init: raise Unsupported('default argument')
            s.frames.append({'fn': s.frames[-1]['fn'] if s.frames else None, 'env': {}, 'this': None, 'exits': []})
            try: a = s.ev(init[-1], st)
            finally: s.frames.pop()
        if isref:
            if isinstance(a, LV): return a
            return LV(s.new_cell(st, a, p.name or 'arg'))
        v = s.read(a, st)
        v = s.convert_to(v, t, st, p)
        r = LV(s.new_cell(st, v, p.name or 'arg'))
        if isinstance(v, T) and v.sort == 'I' and classify(t)[:2] == ('I', True): s.uns.add(r.cell)
        return r
    def convert_to(s, v, t, st, node):
        """construct a value of declared type t from v (Eigen plain objects evaluate expressions)"""
        ty = classify(t)
        if ty[0] == 'mat' and isinstance(v, Mat): return s.to_plain(v, ty, st, node)
        return v
    def to_plain(s, v, ty, st, node=None):
        ct = ty[2]
        if ct == 'col' and v.ct == 'row': v = v.T()
        elif ct == 'row' and v.ct == 'col': v = v.T()
        elif ct == 'col' and v.ct == 'mat':
            s.oblige('shape: vector initialised from a matrix has one column', eq(v.cols, ONE), st, node)
            f0 = v.f
            return Mat(v.rows, ONE, lambda i, j: f0(i, ZERO), ty[3], v.es, 'col', v.ms, nc=lambda A: A.nc(v))
        elif ct == 'row' and v.ct == 'mat':
            s.oblige('shape: row vector initialised from a matrix has one row', eq(v.rows, ONE), st, node)
            f0 = v.f
            return Mat(ONE, v.cols, lambda i, j: f0(ZERO, j), ty[3], v.es, 'row', v.ms, nc=lambda A: A.nc(v))
        return Mat(v.rows, v.cols, v.f, ty[3], ty[1] if ty[1] != 'R' else v.es if v.es == 'I' else 'R', ct if ct != 'mat' else 'mat', v.ms, nc=lambda A: A.nc(v))

    # ---------------------------------------------------------------- statements
    def stmt(s, n, st):
        """execute; returns the fall-through state or None"""
        if n is None: return st
        if s.deadline and time.time() > s.deadline: raise Budget('time')
        k = n.kind
        m = getattr(s, 's_' + k, None)
        if m: return m(n, st)
        # expression statement
        s.ev(n, st)
        if st.ctx.facts and FALSE in st.ctx.facts: return None
        return st
    def s_CompoundStmt(s, n, st):
        for x in n.inner:
            st = s.stmt(x, st)
            if st is None: return None
        return st
    def s_NullStmt(s, n, st): return st
    def s_DeclStmt(s, n, st):
        for d in n.inner:
            if d.kind == 'VarDecl': s.vardecl(d, st)
            elif d.kind in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EmptyDecl'): pass
            elif d.kind == 'DecompositionDecl': s.decomp(d, st)
            else: raise Unsupported('decl ' + d.kind)
        if FALSE in st.ctx.facts: return None
        return st
    def decomp(s, d, st):
        init = next(x for x in d.inner if x is not None and x.kind != 'BindingDecl')
        v = s.ev(init, st)
        isref = d.ctype.rstrip().endswith('&')
        if not isref or not isinstance(v, LV): v = LV(s.new_cell(st, s.rv(v, st), 'decomp'))
        env = s.frames[-1]['env']
        for i, b in enumerate(x for x in d.inner if x is not None and x.kind == 'BindingDecl'):
            env[b.id] = v.at('f', i)
    def vardecl(s, d, st):
        env = s.frames[-1]['env']
        inner = [x for x in d.inner if x is not None and not x.kind.endswith('Attr')]
        t = d.ctype
        ty = classify(t)
        isref = t.rstrip().endswith('&') or d.type.rstrip().endswith('&')
        if d.get('storageClass') == 'static' and not isref and not 'const' in d.type: raise Unsupported('static local')
        if not inner:
            if isref: raise Unsupported('uninitialised reference')
            v = s.uninit(ty, d, st)
        else:
            init = inner[-1]
            if isref:
                v = s.ev(init, st)
                if isinstance(v, LV):
                    env[d.id] = v; return
                v = s.rv(v, st)
            elif ty[0] == 'cls' and s.is_view_type(t):
                before = s.trace_reads(st)
                v = s.ev(init, st)
                deps = s.end_trace()
                if isinstance(v, LV):
                    env[d.id] = v; return
                if isinstance(v, (Mat, VWise)): v = Lazy(v, deps) if deps else v
            else:
                v = s.ev(init, st)
                v = s.rv(v, st)
                v = s.convert_to(v, t, st, d)
                if ty[0] == 'R' and isinstance(v, Mat): v = s.scalar_of(v, st)
        env[d.id] = LV(s.new_cell(st, v, d.name or 'var'))
        if isinstance(v, T) and v.sort == 'I' and classify(d.ctype)[:2] == ('I', True): s.uns.add(env[d.id].cell)
    def is_view_type(s, t):
        t = strip(t)
        n = split_targs(t)[0].split('::')[-1]
        return n in ('Block', 'VectorBlock', 'Map', 'Transpose', 'ArrayWrapper', 'MatrixWrapper', 'CwiseBinaryOp', 'CwiseUnaryOp', 'CwiseNullaryOp', 'Product',
                     'PartialReduxExpr', 'Replicate', 'Select', 'VectorwiseOp', 'Diagonal', 'DiagonalWrapper', 'CwiseTernaryOp', 'Solve', 'Inverse', 'Ref', 'IndexedView', 'Reverse',
                     'ConstTransposeReturnType', 'RowXpr', 'ColXpr', 'ConstRowXpr', 'ConstColXpr') or 'ReturnType' in n
    def trace_reads(s, st): s.trace.append(set())
    def end_trace(s):
        return tuple(s._deps(s.trace.pop()))
    def _deps(s, cells): return [x for x in cells]
    def note_read(s, cell, st):
        for tr in s.trace: tr.add((cell, IdBox(st.store.get(cell))))
    def uninit(s, ty, d, st):
        k = ty[0]
        if k in 'IRBU' and k != 'U': return s.sk('uninit_' + (d.name or ''), d, k)
        if k == 'mat': return default_value(ty, s)
        return default_value(ty, s)
    def s_ReturnStmt(s, n, st):
        inner = [x for x in n.inner if x is not None]
        v = None
        if inner:
            v = s.ev(inner[0], st)
            fn = s.frames[-1]['fn']
            rt = fn.type.split('(')[0].strip() if fn is not None else ''
            if s.frames[-1].get('lambda') or not rt.endswith('&'):
                v = s.rv(v, st)
        if FALSE in st.ctx.facts: return None
        s.frames[-1]['exits'].append(Exit('return', st, v))
        return None
    def s_BreakStmt(s, n, st):
        s.frames[-1]['exits'].append(Exit('break', st)); return None
    def s_ContinueStmt(s, n, st):
        s.frames[-1]['exits'].append(Exit('continue', st)); return None
    def s_IfStmt(s, n, st):
        inner = list(n.inner)
        if n.get('hasInit'):
            st = s.stmt(inner.pop(0), st)
        if n.get('hasVar'):
            s.vardecl(inner[0].inner[0], st); inner.pop(0)
        cnd = s.cond(inner[0], st)
        thn = inner[1]; els = inner[2] if len(inner) > 2 else None
        d = st.ctx.decide(cnd)
        if d is True: return s.stmt(thn, st)
        if d is False: return s.stmt(els, st) if els is not None else st
        a = s.stmt(thn, st.branch(cnd))
        b = st.branch(not_(cnd))
        if els is not None: b = s.stmt(els, b)
        return s.join(cnd, a, b, st)
    def join(s, cnd, a, b, base):
        if a is None and b is None: return None
        if a is None: return b
        if b is None: return a
        # conditions accumulated inside the branches (partial exits)
        la = a.path[len(base.path) + 1:]; lb = b.path[len(base.path) + 1:]
        r = s.merge_states(cnd, a, b, base)
        if la or lb:
            extra = or_(and_(cnd, *la), and_(not_(cnd), *lb))
            if not (isc(extra)):
                r.path = base.path + (extra,); r.ctx = r.ctx.extend(extra)
        return r
    def s_CXXThrowExpr(s, n, st):
        s.frames[-1]['exits'].append(Exit('throw', st, n)); return None
    def s_ExprWithCleanups(s, n, st):
        if n.inner and n.inner[0].kind == 'CXXThrowExpr': return s.s_CXXThrowExpr(n.inner[0], st)
        s.ev(n.inner[0], st)
        if FALSE in st.ctx.facts: return None
        return st
    def s_SwitchStmt(s, n, st): raise Unsupported('switch')
    def s_CXXTryStmt(s, n, st):
        # a single catch-all (or catch of std::exception) handler
        if len(n.inner) != 2: raise Unsupported('several handlers')
        h = n.inner[1]; decl = next((x for x in h.inner if x is not None and x.kind == 'VarDecl'), None)
        if decl is not None and decl.ctype and not re.search(r'exception|runtime_error', str(decl.type)): raise Unsupported('catch of %s' % decl.type)
        hb = h.inner[-1]
        fr = s.frames[-1]; saved = fr['exits']; fr['exits'] = []
        try: cur = s.stmt(n.inner[0], st.copy()); ex = fr['exits']
        finally: fr['exits'] = saved
        res = cur
        for e in ex:
            if e.kind != 'throw': saved.append(e); continue
            cc = and_(*e.st.path[len(st.path):])
            nst = s.stmt(hb, e.st)
            if nst is None: continue
            if res is None: res = nst; continue
            rest = and_(*res.path[len(st.path):])
            m = s.merge_states(cc, nst, res, st)
            both = or_(cc, rest)
            if s.N.nfb(both, ROOT, 0) != ONEP: m.path = st.path + (both,); m.ctx = m.ctx.extend(both)
            res = m
        return res

    # loops -------------------------------------------------------------
    def s_ForStmt(s, n, st):
        init, _, cnd, inc, body = (n.inner + [None] * 5)[:5]
        if init is not None: st = s.stmt(init, st)
        return s.loop(n, cnd, inc, body, st)
    def s_WhileStmt(s, n, st):
        inner = [x for x in n.inner]
        if n.get('hasVar'): raise Unsupported('while var')
        return s.loop(n, inner[0], None, inner[1], st)
    def s_DoStmt(s, n, st):
        # first iteration executed once, then a while loop
        body, cnd = n.inner[0], n.inner[1]
        mark = len(s.frames[-1]['exits'])
        nst = s.stmt(body, st)
        mine = s.frames[-1]['exits'][mark:]
        if any(e.kind in ('break', 'continue') for e in mine): raise Unsupported('break in do-while')
        if nst is None: return None
        return s.loop(n, cnd, None, body, nst)
    def s_CXXForRangeStmt(s, n, st):
        ini, rng, beg, end, cnd, inc, var, body = (n.inner + [None] * 8)[:8]
        if ini is not None: st = s.stmt(ini, st)
        st = s.stmt(rng, st); st = s.stmt(beg, st); st = s.stmt(end, st)
        return s.loop(n, cnd, inc, body, st, pre=var)

    def one_iter(s, cnd, inc, body, st, pre):
        """run guard+body+increment from st; returns (guard term, list of ('next'|'break'|'return'|'throw', state, val))"""
        base = st.path
        g = TRUE if cnd is None else s.cond(cnd, st)
        fr = s.frames[-1]
        saved = fr['exits']; fr['exits'] = []
        b = st.branch(g) if not isc(g) else st.copy()
        ib = s.__dict__.pop('iter_bound', None)
        if ib is not None:
            for f in ib(g): b.assume(f)
        if isc(g) and not cv(g): 
            fr['exits'] = saved
            return g, []
        try:
            cur = s.stmt(pre, b) if pre is not None else b
            cur = s.stmt(body, cur)
            ex = fr['exits']
        finally: fr['exits'] = saved
        conts = [e.st for e in ex if e.kind == 'continue']
        outs = []
        if cur is not None: conts.append(cur)
        nxt = None
        gp = b.path
        if conts:
            nxt = conts[-1]
            for e in reversed(conts[:-1]):
                cc = and_(*e.path[len(gp):])
                bs = State(b.store, b.ctx, b.path)
                nxt2 = s.merge_states(cc, e, nxt, bs)
                ln = nxt.path[len(gp):]
                if ln:
                    extra = or_(cc, and_(*ln))
                    if not isc(extra): nxt2.path = gp + (extra,)
                nxt = nxt2
            if inc is not None: s.ev(inc, nxt)
            outs.append(('next', nxt, None))
        for e in ex:
            if e.kind != 'continue': outs.append((e.kind, e.st, e.val))
        return g, outs

    def loop(s, node, cnd, inc, body, st, pre=None):
        if FALSE in st.ctx.facts: return None
        s.loop_depth += 1
        s.lnodes.append(node if node is not None else body); d0 = len(s.loopvars)
        try: return s.loop_(node, cnd, inc, body, st, pre)
        finally: s.loop_depth -= 1; s.lnodes.pop(); del s.loopvars[d0:]

    # A loop whose guard is true on entry and false after at most three passes (all decided by the values at hand) runs exactly that
    # often: the passes are executed as straight-line code.
    def unroll(s, cnd, inc, body, st, pre, ma0, most=3):
        if cnd is None: return None
        c0 = s.collect; s.collect = False; lv = list(s.loopvars)
        try:
            cur = st.copy(); k = 0
            while True:
                g = s.cond(cnd, cur.copy())
                if g == FALSE and k: break
                if g != TRUE or k == most: return None
                s.loopvars[:] = lv + [c(k)]
                try: n0 = [o for o in s.one_iter(cnd, inc, body, cur, pre)[1] if o[0] == 'next']
                except Unsupported: return None
                finally: s.loopvars[:] = lv
                if not n0: return None
                cur = n0[0][1]; k += 1
        finally: s.collect = c0; s.ma.restore(ma0); s.loopvars[:] = lv
        merged = []; cur = st; base = st.copy(); nb = len(base.path)
        for q in range(k):
            s.loopvars[:] = lv + [c(q)]     # symbols made in different passes are different
            try: outs = s.one_iter(cnd, inc, body, cur, pre)[1]
            finally: s.loopvars[:] = lv
            cur = [o for o in outs if o[0] == 'next'][0][1]
            for kind, e, v in outs:
                if kind == 'break': merged.append(e)
                elif kind != 'next': s.frames[-1]['exits'].append(Exit(kind, e, v))
        s.cond(cnd, cur)
        res = cur
        for e in reversed(merged):
            cc = and_(*e.path[nb:]); lm = res.path[nb:]
            m2 = s.merge_states(cc, e, res, base)
            rest = or_(cc, and_(*lm))
            if s.N.nfb(rest, ROOT, 0) != ONEP: m2.path = base.path + (rest,); m2.ctx = m2.ctx.extend(rest)
            res = m2
        return (res,)

    def loop_(s, node, cnd, inc, body, st, pre):
        collect0 = s.collect
        ma0 = s.ma.snapshot()
        lid = s.skname('loop', s.lnodes[-1])[0].split('!')[1]
        t = fresh('t')
        s.loopvars.append(t)
        u = s.unroll(cnd, inc, body, st, pre, ma0)
        if u is not None: return u[0]
        # --- phase A: discovery
        M = []
        s.collect = False
        nloops = len(s.loops)
        guardW = set()
        for rounds in range(8):
            s.ma.restore(ma0)
            hst, syms = s.havoc(st, M, t, lid)
            hst.assume(le(ZERO, t))
            pre_guard = dict(hst.store)
            g, outs = s.one_iter(cnd, inc, body, hst, pre)
            W = []
            for k in st.store:
                if k in M: continue
                # the guard may write too (getline, i++ in the condition)
                for o in [hst] + [o for kind, o, v in outs]:
                    if o.store.get(k) is not pre_guard.get(k) and not same_value(o.store.get(k), pre_guard.get(k)):
                        W.append(k); break
                if k not in guardW and hst.store.get(k) is not pre_guard.get(k) and not same_value(hst.store.get(k), pre_guard.get(k)): guardW.add(k)
            if not W:
                # a real-valued variable that happens to hold an integer before the loop
                R = set()
                for k in M:
                    before = {nm: so for nm, ix, so, f in flatten_cell(st.store[k])}
                    for o in [hst] + [o for kind, o, v in outs]:
                        for nm, ix, so, f in flatten_cell(o.store[k]):
                            if so == 'R' and before.get(nm) == 'I' and (k, nm) not in s.real: R.add((k, nm))
                            elif before.get(nm) == 'I' and so == 'I' and (k, nm) not in s.real and not ('len' in nm or nm.endswith(('rows', 'cols', 'pos'))):
                                try: v1 = f(*[fresh('z', q) for q in ix])
                                except Exception: continue
                                if v1.sort == 'R': R.add((k, nm))
                if not R: break
                s.real |= R
            M += W
        else: raise Unsupported('loop frame')
        del s.loops[nloops:]
        for k in M:
            if hst.store.get(k) is not pre_guard.get(k): guardW.add(k)
        if isc(g) and not cv(g):
            # guard false on entry for every state: loop not executed
            s.collect = collect0
            if not M: return st
        nexts = [o for o in outs if o[0] == 'next']
        exits = [o for o in outs if o[0] in ('break', 'return', 'throw')]
        if not nexts and not exits:
            s.collect = collect0
            st.assume(not_(g)) if not isc(g) else None
            return st if not (isc(g) and cv(g)) else None
        # --- solve
        info = LoopInfo(); info.t = t; info.lid = lid; info.node = node; info.fn = s.frames[-1]['fn'].qual
        info.guard = g; info.syms = syms
        s.collect = False
        cf, unres = s.solve(st, M, t, lid, syms, g, nexts, hst, exits)
        # --- equality invariants between state components without a closed form: optimistic classes, refined until inductive
        alias = s.alias_classes(st, M, unres) if nexts else {}
        for rnd in range(6):
            if not alias: break
            del s.loops[nloops:]
            s.ma.restore(ma0)
            hst, syms = s.havoc(st, M, t, lid, alias)
            hst.assume(le(ZERO, t))
            g, outs = s.one_iter(cnd, inc, body, hst, pre)
            nexts = [o for o in outs if o[0] == 'next']; exits = [o for o in outs if o[0] in ('break', 'return', 'throw')]
            if not nexts: alias = {}; continue
            cf, unres = s.solve(st, M, t, lid, syms, g, nexts, hst, exits, alias)
            h3 = st.copy()
            for k in M: h3.store[k] = unflatten_cell(st.store[k], lambda nm, ix, k=k: cf[(k, nm)](t, *ix))
            h3.assume(le(ZERO, t))
            s.ma.restore(ma0)
            outs3 = [o for o in s.one_iter(cnd, inc, body, h3, pre)[1] if o[0] == 'next']
            good = s.alias_check(st, M, alias, outs3[0][1], cf) if outs3 else {}
            if DEBUG: print('ALIAS', {k[0][1]+'.'+k[1]: str(v[-1]) for k, v in alias.items()}, '->', {k[0][1]+'.'+k[1]: str(v[-1]) for k, v in good.items()})
            if good == alias: break
            alias = good
            if not alias:
                s.ma.restore(ma0)
                hst, syms = s.havoc(st, M, t, lid); hst.assume(le(ZERO, t))
                g, outs = s.one_iter(cnd, inc, body, hst, pre)
                nexts = [o for o in outs if o[0] == 'next']; exits = [o for o in outs if o[0] in ('break', 'return', 'throw')]
                cf, unres = s.solve(st, M, t, lid, syms, g, nexts, hst, exits)
        else: raise Unsupported('equality invariants do not stabilise')
        del s.loops[nloops:]
        s.collect = collect0
        s.ma.restore(ma0)
        # --- phase B (below): the body runs only in iterations t < N
        s.iter_bound = lambda gg: s.pre_count(gg, t, st, lid)
        # --- phase B: re-execute with the closed forms as loop invariant
        hst2 = st.copy()
        for k in M: hst2.store[k] = unflatten_cell(st.store[k], lambda nm, ix, k=k: cf[(k, nm)](t, *ix))
        hst2.assume(le(ZERO, t))
        for f in s.unres_facts(unres, cf, t): hst2.assume(f)
        g2, outs2 = s.one_iter(cnd, inc, body, hst2, pre)
        # iteration count
        exits2 = [o for o in outs2 if o[0] in ('break', 'return', 'throw')]
        gp = hst2.path
        nb = len(gp)
        econd = [and_(*o[1].path[nb + (0 if isc(g2) else 1):]) for o in exits2]
        Nt, nfacts = s.count(g2, t, st, lid, bool(exits2))
        info.N = Nt; info.M = M; info.cf = cf; info.unres = unres; info.g = g2; info.st0 = st; info.outs = outs2; info.econd = econd
        # preservation obligations
        nx = [o for o in outs2 if o[0] == 'next']
        info.step = {}
        if nx:
            nst = nx[0][1]
            for k in M:
                if rigid(nst.store[k]) != rigid(st.store[k]): raise Unsupported('loop changes a pointer or object identity (%s)' % k[1])
                newc = {nm: f for nm, ix, so, f in flatten_cell(nst.store[k])}
                for nm, ixs, so, f in flatten_cell(st.store[k]):
                    idx = tuple(fresh('x', q) for q in ixs)
                    if nm not in newc: raise Unsupported('loop changes shape')
                    if (k, nm) in unres:
                        info.step[(k, nm)] = newc[nm]
                        continue
                    lhs = newc[nm](*idx)
                    ak = alias.get((k, nm))
                    if ak == 'DEF': rhs = s.def_values(nst, alias)(k, nm)(*idx)
                    elif ak is not None and ak != 'INIT' and (ak in unres or alias.get(ak) == 'DEF'):
                        rk, rn = ak
                        rhs = {q: f for q, ix, so, f in flatten_cell(nst.store[rk])}[rn](*idx)
                    else: rhs = cf[(k, nm)](add(t, ONE), *idx)
                    ist = nst
                    if idx:
                        rng = in_range(nm, idx, newc)
                        if rng: ist = nst.copy(); ist.assume(and_(*rng))
                    s.oblige('loop invariant preserved (%s%s)' % (k[1], ('.' + nm) if nm else ''), eq(lhs, rhs), ist, node)
        s.loops.append(info)
        # --- exit states
        E = or_(*econd) if econd else FALSE
        res = None
        def at(tt):
            return {t: tt}
        results = []
        base = st.copy()
        for f in nfacts: base.assume(f)
        for f in s.carried(nx, hst2, t): base.assume(Forall(Nt, lambda x: subst(f, {t: x})))
        def closed(val, tt): return mapval(val, lambda x: subst(x, {t: tt}))
        norm = base.copy()
        for k in M: norm.store[k] = unflatten_cell(st.store[k], lambda nm, ix, k=k: cf[(k, nm)](Nt, *ix))
        if guardW:   # the last, failing evaluation of the guard has its effects too
            c0 = s.collect; s.collect = False
            gl = s.cond(cnd, norm); s.collect = c0
            if not isc(gl) and not exits2: norm.assume(not_(gl))
        if not exits2:
            return norm
        ex_any = Exists(Nt, lambda x: subst(E, {t: x}))
        tau = ArgMax(Nt, lambda x: br(subst(E, {t: x})))
        info.tau = tau; info.exists = ex_any
        fr = s.frames[-1]
        dec = base.ctx.decide(ex_any)
        if isc(g2) and cv(g2):
            # no condition: the loop is left through an exit only (executions that never leave it are not constrained)
            dec = True; s.assumed.add('partial correctness of loops without a condition: executions that never leave such a loop are not considered')
        merged = None
        if dec is not True:
            norm.path = norm.path + (not_(ex_any),); norm.assume(not_(ex_any))
            merged = norm
        if dec is not False:
            tb = base.copy()
            tb.path = tb.path + (ex_any,)
            facts = [ex_any, le(ZERO, tau), lt(tau, Nt), subst(E, {t: tau})]
            for f in facts: tb.assume(f)
            for i, o in enumerate(exits2):
                es = o[1]
                e2 = tb.copy()
                for k in es.store:
                    if k in st.store and es.store[k] is st.store[k]: continue
                    e2.store[k] = closed_cell(es.store[k], lambda x: subst(x, {t: tau}))
                if len(exits2) > 1:
                    ec = subst(econd[i], {t: tau})
                    e2.path = e2.path + (ec,); e2.assume(ec)
                if o[0] == 'break':
                    if merged is None: merged = e2
                    else:
                        cc = and_(*e2.path[len(base.path):])
                        lm = merged.path[len(base.path):]
                        m2 = s.merge_states(cc, e2, merged, base)
                        rest = or_(cc, and_(*lm))
                        rest_nf = s.N.nfb(rest, ROOT, 0)
                        if rest_nf != ONEP: m2.path = base.path + (rest,); m2.ctx = m2.ctx.extend(rest)
                        merged = m2
                else:
                    v = o[2]
                    if o[0] == 'return' and v is not None:
                        v = closed(s.read(v, es), tau) if not isinstance(v, LV) or True else v
                    fr['exits'].append(Exit(o[0], e2, v))
        return merged

    def havoc(s, st, M, t, lid, alias=None):
        h = st.copy(); syms = {}; alias = alias or {}
        isdef = lambda x: alias.get(x) == 'DEF' or alias.get(alias.get(x)) == 'DEF'
        outer = tuple(x for x in s.loopvars if x is not t)
        order = {k: i for i, k in enumerate(sorted(M, key=lambda k: k[0]))}
        for k in M:
            comps = flatten_cell(st.store[k])
            names = {}
            for nm, ix, so, f in comps:
                names[nm] = ('h%s_%d_%s_%s' % (lid, order[k], k[1], nm), 'R' if (k, nm) in s.real else so)
                syms[(k, nm)] = names[nm]
            init = {nm: f for nm, ix, so, f in comps}; so0 = {nm: so for nm, ix, so, f in comps}
            def prov(nm, ix, defs, names=names, k=k, init=init, so0=so0):
                if alias.get((k, nm)) == 'INIT': return init[nm](*ix)
                key = alias.get((k, nm), (k, nm))
                if key == 'DEF': key = (k, nm)
                if alias.get(key) == 'DEF': return defs(*key)(*ix) if defs is not None else var('%poison', so0[nm])
                f, so = syms[key]
                return app(f, (t,) + tuple(ix) + outer, so)
            h.store[k] = (st.store[k], prov)
        raw = {k: h.store[k] for k in M}
        for k in M: h.store[k] = unflatten_cell(raw[k][0], lambda nm, ix, p=raw[k][1]: p(nm, ix, None))
        for k in M:
            if k in s.uns and isinstance(h.store[k], T) and h.store[k].sort == 'I': h.assume(le(ZERO, h.store[k]))
        if any(isdef(x) for x in alias):
            defs = s.def_values(h.copy(), alias)
            for k in M: h.store[k] = unflatten_cell(raw[k][0], lambda nm, ix, p=raw[k][1]: p(nm, ix, defs))
        return h, syms

    # A ghost field x of a client class with a method def_x(): candidate loop invariant "x == def_x()" (checked like any other).
    def def_method(s, v, nm):
        if not isinstance(v, Obj): return None
        want = 'def_' + nm.split('.')[0]
        for x in v.cls.inner:
            if x is not None and x.kind == 'CXXMethodDecl' and x.name == want: return s.u.defs.get(x.id, x if body_of(x) is not None else None)
        return None
    def def_values(s, st, alias):
        """(cell, component) -> function of the indices: the defining expression evaluated in state st (lazily, once)"""
        memo = {}
        def get(k, nm):
            key = (k, nm.split('.')[0])
            if key not in memo:
                memo[key] = None
                st2 = st.copy(); c0 = s.collect; s.collect = False
                try: r = s.call(s.def_method(st2.store[k], nm), LV(k), [], st2)
                finally: s.collect = c0
                r = s.to_plain(s.rv(r, st2), s.fieldty(st2.store[k], key[1]), st2)
                memo[key] = {key[1] + '.' + n2: f for n2, ix, so, f in flatten(r)}
            if memo[key] is None: raise Unsupported('ghost definition refers to itself')
            def chk(*ix, f=memo[key][nm]):
                v = f(*ix)
                if any(x.args[0] == '%poison' for x in v.fv): raise Unsupported('ghost definition depends on a defined ghost')
                return v
            return chk
        return get
    def fieldty(s, v, name):
        for fd in s.fields_of(v.cls):
            if fd.name == name: return classify(fd.ctype)
    def alias_sig(s, nm, ix, so): return (ix, so)
    def alias_classes(s, st, M, unres):
        groups = {}; alias = {}
        for x in sorted(unres, key=lambda x: (x[0][0], x[1])):
            if s.def_method(st.store[x[0]], x[1]) is not None: alias[x] = 'DEF'
        order = sorted(M, key=lambda k: (not any(x[0] == k for x in alias), k[0]))
        for k in order:
            cs = flatten_cell(st.store[k])
            for nm, ix, so, f in sorted(cs, key=lambda q: (k, q[0]) not in alias) if alias else cs:
                if (k, nm) not in unres: continue
                idx = tuple(var('%%a%d%s' % (q, x), x) for q, x in enumerate(ix))
                try: f0 = f(*idx)
                except Exception: continue
                if so in 'IR': sig = s.N.nf(f0, st.ctx, 0); so2 = 'N'
                elif so == 'B': sig = s.N.nfb(f0, st.ctx, 0); so2 = so
                else: sig = f0; so2 = so
                key = (ix, so, frozenset(sig.items()) if isinstance(sig, dict) else sig)
                if alias and nm.endswith('el'):   # with ghost definitions around, the shape tells the candidates apart
                    d0 = {q[0]: q[3] for q in cs}
                    key += tuple(frozenset(s.N.nf(d0[nm[:-2] + z](*idx[:-2]), st.ctx, 0).items()) for z in ('rows', 'cols') if nm[:-2] + z in d0)
                groups.setdefault(key, []).append((k, nm))
        for ks in groups.values():
            for x in ks[1:]:
                if x in alias: continue
                # a ghost definition may not be given in terms of itself
                r = next((y for y in ks if y == x or alias.get(y) != 'DEF' and y not in alias or alias.get(y) == 'DEF' and y[0] != x[0]), x)
                if r != x: alias[x] = r
        # a flag that keeps its initial value as long as the loop goes on
        for x in unres:
            if x not in alias and x not in alias.values() and (s.comp_sort(st, x) == 'B' or x[1].endswith(('rows', 'cols'))): alias[x] = 'INIT'
        return alias
    def comp_sort(s, st, x): return next(so for nm, ix, so, f in flatten_cell(st.store[x[0]]) if nm == x[1])
    def alias_check(s, st, M, alias, nst, cf):
        classes = {}
        for x, r in alias.items():
            if r not in ('INIT', 'DEF'): classes.setdefault(r, [r]).append(x)
        steps = {}
        for k in M:
            for nm, ix, so, f in flatten_cell(nst.store[k]): steps[(k, nm)] = (ix, so, f)
        out = {}
        for x, r in alias.items():
            if r not in ('INIT', 'DEF'): continue
            ix, so, f = steps[x]
            idx = tuple(var('%%a%d%s' % (q, z), z) for q, z in enumerate(ix))
            cx = nst.ctx
            if r == 'DEF' and idx:
                rng = in_range(x[1], idx, {nm: f for (k, nm), (_, _, f) in steps.items() if k == x[0]})
                if rng: cx = cx.extend(*rng)
            if r == 'DEF':
                c0 = {nm: f for nm, ix, so, f in flatten_cell(st.store[x[0]])}
                i0 = c0[x[1]](*idx); cx0 = st.ctx
                if idx: cx0 = cx0.extend(*in_range(x[1], idx, c0))
                goals = [(f(*idx), s.def_values(nst, alias)(*x)(*idx), cx), (i0, s.def_values(st, alias)(*x)(*idx), cx0)]
            else: goals = [(f(*idx), next(f for nm, ix, so, f in flatten_cell(st.store[x[0]]) if nm == x[1])(*idx), cx)]
            try:
                if DEBUG and r == 'DEF': print('DEF', [(show(a)[:600], show(b)[:600]) for a, b, _ in goals])
                if all(Prover(6, 1000).prove(eq(a, b), q) for a, b, q in goals): out[x] = r
            except Budget: pass
        for r, ks in classes.items():
            sub = {}
            for x in ks:
                ix, so, f = steps[x]
                idx = tuple(var('%%a%d%s' % (q, z), z) for q, z in enumerate(ix))
                e = f(*idx)
                sig = s.N.nf(e, nst.ctx, 0) if so in 'IR' else s.N.nfb(e, nst.ctx, 0) if so == 'B' else e
                key = frozenset(sig.items()) if isinstance(sig, dict) else sig
                if key not in sub:
                    for k2, v2 in sub.items():
                        if so == 'U' or steps[v2[0]][0] != ix: continue
                        e2 = steps[v2[0]][2](*idx)
                        cx = nst.ctx
                        if idx:
                            rng = in_range(x[1], idx, {nm: f for (k, nm), (_, _, f) in steps.items() if k == x[0]})
                            if rng: cx = cx.extend(*rng)
                        try:
                            if Prover(6, 1000).prove(eq(e, e2), cx): key = k2; break
                        except Budget: pass
                sub.setdefault(key, []).append(x)
            for g in sub.values():
                for x in g[1:]: out[x] = g[0]
        return out
    def solve(s, st, M, t, lid, syms, g, nexts, hst, exits=(), alias=None):
        """closed forms for loop-modified components"""
        byname = {v[0]: k for k, v in syms.items()}
        s.extrema = {}
        cf = {}; comps = {}; outer = tuple(x for x in s.loopvars if x is not t)
        if not nexts:
            for k in M:
                for nm, ix, so, f in flatten_cell(st.store[k]): cf[(k, nm)] = (lambda tt, *i, f=f: f(*i))
            return cf, set()
        nst = nexts[0][1]
        # on the continuing path no exit was taken: facts of that path
        ctx0 = hst.ctx
        extra = [p for p in nst.path[len(hst.path):]]
        ctx = ctx0.extend(*extra)
        if DEBUG: print('EXTRA', [show(x)[:300] for x in extra])
        for k in M:
            new = {nm: f for nm, ix, so, f in flatten_cell(nst.store[k])}
            for nm, ix, so, f in flatten_cell(st.store[k]):
                if nm not in new: raise Unsupported('loop changes shape')
                comps[(k, nm)] = (ix, 'R' if (k, nm) in s.real else so, f, new[nm])
        alias = alias or {}
        pending = {k: v for k, v in comps.items() if k not in alias}
        exprs = {}
        idxv = {}
        for key, (ix, so, f0, f1) in comps.items():
            idxv[key] = tuple(fresh('x', q) for q in ix)
        def repl_resolved(term):
            def r(a):
                k = byname.get(a.args[0])
                if k is not None and k in cf:
                    return cf[k](a.args[1], *a.args[2:2 + len(comps[k][0])])
                return None
            return map_apps(term, r)
        unresolved_names = lambda term: {byname[n] for n in appnames(term) if n in byname and byname[n] not in cf}
        lf = {}
        def loopfacts(rr):
            k = len(cf)
            if k not in lf: lf[k] = {y for x in ctx.allfacts() if appnames(x) & set(byname) for z in (x, rr(x)) for y in (z.args if z.op == 'and' else (z,)) if not isc(y)} if byname else set()
            return lf[k]
        for rnd in range(6):
            progress = False
            for key in list(pending):
                ix, so, f0, f1 = comps[key]
                idx = idxv[key]
                if key not in exprs: exprs[key] = f1(*idx)
                e = use_facts(repl_resolved(exprs[key]), loopfacts(repl_resolved))
                others = unresolved_names(e)
                H = app(syms[key][0], (t,) + idx + outer, so)
                r = s.payload(exprs[key], H, t, idx, so, f0, ctx, syms, byname, outer, repl_resolved, unresolved_names) if s.extrema and key not in s.extrema else None
                if r is None: r = s.solve1(key, e, H, others, t, idx, so, f0, ctx, cf, syms, byname)
                if r is not None:
                    cf[key] = r; del pending[key]; progress = True
            if not progress and not any(f(pending, comps, idxv, exprs, cf, syms, byname, t, outer, ctx, st.ctx, repl_resolved) for f in (s.solve_single_shot, s.solve_pointwise)): break
        if DEBUG:
            for key in pending:
                H = app(syms[key][0], (t,) + idxv[key] + outer, comps[key][1])
                print('UNRESOLVED', key, show(H)); print('   =', show(repl_resolved(exprs[key]))[:3000])
        # record trackers (arg of running extremum) need the extremum component's recurrence
        unres = set(pending)
        for key in unres:
            nm, so = syms[key]
            cf[key] = (lambda tt, *i, nm=nm, so=so: app(nm, (tt,) + tuple(i) + outer, so))
        for key in alias:
            if alias[key] == 'INIT': cf[key] = (lambda tt, *i, f0=comps[key][2]: f0(*i))
            elif alias[key] == 'DEF':
                def cfd(tt, *i, key=key):
                    dst = hst.copy()
                    for k in M: dst.store[k] = unflatten_cell(st.store[k], lambda nm, ix, k=k: var('%poison', comps[(k, nm)][1]) if alias.get((k, nm)) == 'DEF' or alias.get(alias.get((k, nm))) == 'DEF' else cf[(k, nm)](tt, *ix))
                    return s.def_values(dst, alias)(*key)(*i)
                cf[key] = cfd
        for key in alias:
            if alias[key] not in ('INIT', 'DEF'): cf[key] = cf[alias[key]]
        return cf, unres

    def solve_single_shot(s, pending, comps, idxv, exprs, cf, syms, byname, t, outer, ctx, ctx0, rr):
        """components that change only in the one iteration t = c: what they read of each other then is still the initial value"""
        es = {k: rr(exprs[k]) for k in pending if k in exprs}
        conds = []
        for e in es.values():
            for x in subterms(e):
                if x.op == 'eq' and x.nb == 0 and t in x.fv and x not in conds and x.args[0].sort in 'IR' and not (appnames(x) & set(byname)):
                    sol = solve_lin(x, t)
                    if sol is not None and t not in sol.fv and sol.sort == 'I' and not (sol.fv & set(v for i in idxv.values() for v in i if isinstance(v, T))): conds.append(x)
        for P in conds[:4]:
            sol = solve_lin(P, t)
            cn = ctx.extend(not_(P)); cp = ctx.extend(P)
            group = {}
            for k, e in es.items():
                ix, so, f0, f1 = comps[k]
                H = app(syms[k][0], (t,) + idxv[k] + outer, so)
                nf = s.N.nfb if so == 'B' else s.N.nf
                if so == 'U': continue
                if nf(e, cn, 0) == nf(H, cn, 0): group[k] = use_facts(e, [P])
            ok = True
            while ok is not None and group:
                bad = [k for k, v in group.items() if {byname[n] for n in appnames(v) if n in byname and byname[n] not in cf} - set(group)]
                if not bad: break
                for k in bad: group.pop(k)
            if not group: continue
            low = TRUE if ctx0.decide(le(ZERO, sol)) or s.N.nfb(le(ZERO, sol), ctx0, 0) == ONEP else le(ZERO, sol)
            def before(tt):
                p = padd(poly_of(sub(c(tt), sol)), {})
                if pisconst(p): return c(bool(pval(p) > 0))
                return lt(sol, c(tt))
            def init(term):
                def r(a):
                    k = byname.get(a.args[0])
                    if k is not None and k in group: return comps[k][2](*a.args[2:2 + len(comps[k][0])])
                return map_apps(term, r)
            done = False
            for k, v in group.items():
                ix, so, f0, f1 = comps[k]
                val = subst(init(v), {t: sol})
                def cfs(tt, *i, val=val, f0=f0, idx=idxv[k]):
                    return ite(and_(low, before(tt)), subst(val, dict(zip(idx, map(c, i)))), f0(*i))
                cf[k] = cfs; pending.pop(k); done = True
            if done: return True
        return False
    def solve_pointwise(s, pending, comps, idxv, exprs, cf, syms, byname, t, outer, ctx, ctx0, rr):
        """a group of arrays, each changing only its element with t = sol(index) in iteration t, that read each other only at
        elements whose turn has not come: what they read then is still the initial value"""
        es = {k: rr(exprs[k]) for k in pending if k in exprs and idxv[k]}
        group = {}
        for k, e in es.items():
            ix, so, f0, f1 = comps[k]
            if so == 'U': continue
            H = app(syms[k][0], (t,) + idxv[k] + outer, so)
            nf = s.N.nfb if so == 'B' else s.N.nf
            seen = set()
            for x in subterms(e):
                if x.op != 'eq' or x.nb or t not in x.fv or x in seen or x.args[0].sort not in 'IR' or appnames(x) & set(byname): continue
                seen.add(x)
                sol = solve_lin(x, t)
                if sol is None or t in sol.fv or sol.sort != 'I' or not (sol.fv & set(v for v in idxv[k] if isinstance(v, T))): continue
                if nf(e, ctx.extend(not_(x)), 0) == nf(H, ctx.extend(not_(x)), 0):
                    group[k] = (x, sol, use_facts(e, [x])); break
        def untouched(k, a, cp):
            q = byname.get(a.args[0])
            if q is None or q in cf: return True
            if q not in group or a.args[1] is not t: return False
            m = dict(zip(idxv[q], a.args[2:2 + len(idxv[q])]))
            return s.N.nfb(le(t, subst(group[q][1], m)), cp, 0) == ONEP
        while group:
            bad = [k for k, (x, sol, v) in group.items() if not all(untouched(k, a, ctx.extend(x)) for a in subterms(v) if a.op == 'app')]
            if not bad: break
            for k in bad: group.pop(k)
        for k, (x, sol, v) in group.items():
            def init(term):
                def r(a):
                    q = byname.get(a.args[0])
                    if q is not None and q in group: return comps[q][2](*a.args[2:2 + len(comps[q][0])])
                return map_apps(term, r)
            val = subst(init(v), {t: sol}); f0 = comps[k][2]
            def cfp(tt, *i, val=val, f0=f0, idx=idxv[k], sol=sol):
                m = dict(zip(idx, map(c, i))); ss = subst(sol, m)
                return ite(and_(le(ZERO, ss), lt(ss, c(tt))), subst(val, m), f0(*i))
            cf[k] = cfp; pending.pop(k)
        return bool(group)
    def solve1(s, key, e, H, others, t, idx, so, f0, ctx, cf, syms, byname):
        if e is H:
            return lambda tt, *i: f0(*i)
        if so == 'U':
            if key not in others:
                # last write of an opaque value
                if t not in e.fv:
                    return lambda tt, *i: ite(lt(ZERO, c(tt)), subst(e, dict(zip(idx, map(c, i)))), f0(*i))
                return lambda tt, *i: ite(lt(ZERO, c(tt)), subst(e, {t: sub(c(tt), ONE), **dict(zip(idx, map(c, i)))}), f0(*i))
            return s.solve_U(key, e, H, t, idx, f0, ctx)
        if others - {key}: 
            return s.solve_tracker(key, e, H, others, t, idx, so, f0, ctx, cf, syms, byname)
        name = H.args[0]
        if so == 'I' and e.op == 'imod' and name not in appnames(e.args[1]) and t not in e.args[1].fv:
            # cyclic counter: v' = (v + d) mod K from a start in [0, K)
            d = p_to_term(s.N.nf(sub(e.args[0], H), ctx, 0)); K = e.args[1]
            if name not in appnames(d) and t not in d.fv and not idx:
                z = f0()
                if ctx.decide(le(ZERO, z)) and ctx.decide(lt(z, K)): return lambda tt, *i: imod(add(f0(), mul(d, c(tt))), K)
        p = s.N.nfb(e, ctx, 0) if so == 'B' else s.N.nf(e, ctx, 0)
        p = s.align(p, H, idx, ctx, so)
        p = s.eqsubst(p, idx, ctx, t, name)
        Hn = p_atom_of(s.N, H, so)
        # split  p = a*H + b
        a = {}; b = {}
        for m, q in p.items():
            inH = [x for x in m if name in appnames(x[0])]
            if not inH: b[m] = q; continue
            if len(inH) == 1 and inH[0][0] is Hn and inH[0][1] == 1:
                a[tuple(x for x in m if x is not inH[0])] = q
            else:
                r = s.solve_extremum(key, e, H, t, idx, so, f0, ctx)
                if r is None: r = s.solve_argidx(key, e, H, t, idx, so, f0, ctx)
                if r is not None: return r
                return s.solve_shift(key, e, H, t, idx, so, f0, ctx)
        I = lambda term, tt, i: subst(term, {t: tt, **dict(zip(idx, map(c, i)))})
        conv = (lambda x: x) if so != 'B' else (lambda x: x)
        if not a:
            # overwritten in every iteration: value of the last one
            bt = p_to_term(b) if so != 'B' else s.N.p_to_b(b)
            return lambda tt, *i: ite(lt(ZERO, c(tt)), I(bt, sub(c(tt), ONE), i), f0(*i))
        if a == ONEP:
            if not b: return lambda tt, *i: f0(*i)
            if so == 'B': return None
            bt = p_to_term(b)
            if t not in bt.fv:
                return lambda tt, *i: add(f0(*i), mul(I(bt, ZERO, i), c(tt)))
            return lambda tt, *i: add(f0(*i), Sum(c(tt), lambda x: I(bt, x, i)))
        if so != 'B' and pisconst(a) and not b:
            k = pval(a)
            return lambda tt, *i: mul(f0(*i), Prod(c(tt), lambda x: c(k)))
        # 0/1 keep-coefficient
        cpoly = padd(ONEP, a, -1)
        cond = s.N.p_to_b(cpoly)
        if is01(cpoly, s.N, ctx):
            # substitute a determined time
            te = None
            if len(cpoly) == 1:
                (m, q), = cpoly.items()
                if q == 1:
                    for x, ex in m:
                        if x.op == 'br' and x.args[0].op == 'eq' and t in x.fv:
                            sol = solve_lin(x.args[0], t)
                            if sol is not None and t not in sol.fv: te = (sol, x); break
                    if te is None:
                        # filtered append: slot = offset + number of earlier selections
                        r = s.solve_append(m, b, t, idx, so, f0, ctx, cond)
                        if r is not None: return r
            if te is None and len(cpoly) > 1:
                common = set(a for a, e in next(iter(cpoly)))
                for m2 in cpoly: common &= set(a for a, e in m2)
                for x in sorted(common, key=lambda z: z.id):
                    if x.op != 'br' or x.args[0].op != 'eq' or not any(isinstance(v, T) and v in x.fv for v in idx): continue
                    selp = {tuple(z for z in m2 if z[0] is not x): q for m2, q in cpoly.items()}
                    sel = s.N.p_to_b(selp)
                    pm = ((x, 1), (mk('br', (sel,), 'I'), 1))
                    pp = padd(poly_of(x.args[0].args[0]), poly_of(x.args[0].args[1]), -1)
                    r = s.solve_append2(pm, b, t, idx, so, f0, ctx, cond, x, pp)
                    if r is not None: return r
                for x in sorted(common, key=lambda z: z.id):
                    if x.op != 'br' or x.args[0].op != 'eq' or t not in x.fv: continue
                    sol = solve_lin(x.args[0], t)
                    if sol is None or t in sol.fv: continue
                    selp = {tuple(z for z in m2 if z[0] is not x): q for m2, q in cpoly.items()}
                    te = (sol, x); restp = s.N.p_to_b(selp); break
            if te is not None:
                sol, x = te
                ctxw = ctx.extend(cond)
                val = p_to_term(s.N.nf(p_to_term(b), ctxw, 0)) if so != 'B' else s.N.p_to_b(s.N.nfb(s.N.p_to_b(b), ctxw, 0))
                rest = and_(*[y.args[0] for y, _ in m if y is not x]) if len(cpoly) == 1 else restp
                def cfw(tt, *i):
                    ss = I(sol, ZERO, i)
                    return ite(and_(le(ZERO, ss), lt(ss, c(tt)), I(rest, ss, i)), I(val, ss, i), f0(*i))
                return cfw
            bb = s.N.nfb(s.N.p_to_b(b), ctx, 0) if so == 'B' else None
            if so == 'B' and b == cpoly:
                return lambda tt, *i: or_(f0(*i), Exists(c(tt), lambda x: I(cond, x, i)))
            if so == 'B' and not b:
                return lambda tt, *i: and_(f0(*i), not_(Exists(c(tt), lambda x: I(cond, x, i))))
            ctxw = ctx.extend(cond)
            val = p_to_term(s.N.nf(p_to_term(b), ctxw, 0)) if so != 'B' else s.N.p_to_b(s.N.nfb(s.N.p_to_b(b), ctxw, 0))
            if t not in val.fv:
                return lambda tt, *i: ite(Exists(c(tt), lambda x: I(cond, x, i)), I(val, ZERO, i), f0(*i))
            # last write
            if s.no_closed: return None
            def cfl(tt, *i):
                tt = c(tt)
                last = sub(sub(tt, ONE), ArgMax(tt, lambda x: br(I(cond, sub(sub(tt, ONE), x), i))))
                return ite(Exists(tt, lambda x: I(cond, x, i)), I(val, last, i), f0(*i))
            return cfl
        r = s.solve_extremum(key, e, H, t, idx, so, f0, ctx)
        return r

    def solve_append(s, m, b, t, idx, so, f0, ctx, cond):
        """[c(t)] [q == off + sum_{s<t}[c(s)]] -> nth"""
        for x, ex in m:
            if x.op != 'br' or x.args[0].op != 'eq': continue
            p = padd(poly_of(x.args[0].args[0]), poly_of(x.args[0].args[1]), -1)
            r = s.solve_append2(m, b, t, idx, so, f0, ctx, cond, x, p)
            if r is not None: return r
            sums = [(mm, q) for mm, q in p.items() if len(mm) == 1 and mm[0][0].op == 'sum' and mm[0][1] == 1 and mm[0][0].args[0] is t]
            if len(sums) != 1 or abs(sums[0][1]) != 1: continue
            sm = sums[0][0][0][0]
            rest = dict(p); rest.pop(sums[0][0])
            rest = pscale(rest, -1 / sums[0][1])       # sum = rest
            rt = p_to_term(rest)
            if t in rt.fv: continue
            bodyc = sm.args[1]
            facs = flat_factors_list(bodyc)
            if not all(f.op == 'br' for f in facs): continue
            selc = lambda z: and_(*[f.args[0] for f in flat_factors_list(instantiate(bodyc, z))])
            # remaining factors must be equivalent to selection at t
            others = and_(*[y.args[0] for y, _ in m if y is not x])
            pr = s.N.nfb(eq(others, selc(t)), ctx, 0)
            if pr != ONEP: continue
            ctxw = ctx.extend(cond)
            val = p_to_term(s.N.nf(p_to_term(b), ctxw, 0)) if so != 'B' else s.N.p_to_b(s.N.nfb(s.N.p_to_b(b), ctxw, 0))
            I = lambda term, tt, i: subst(term, {t: tt, **dict(zip(idx, map(c, i)))})
            def cfa(tt, *i):
                r0 = I(rt, ZERO, i)
                cnt = Sum(c(tt), lambda z: br(I(subst(selc(t), {}), z, i)))
                sel = Nth(lambda z: I(selc(t), z, i), r0)
                return ite(and_(le(ZERO, r0), lt(r0, cnt)), I(val, sel, i), f0(*i))
            return cfa
        return None
    def solve_append2(s, m, b, t, idx, so, f0, ctx, cond, x, p):
        """[sel(t)] [q == E(t)] where E(t+1) - E(t) == [sel(t)]: the E(0)+r-th selected iteration wrote slot q"""
        if x.args[0].args[0].sort != 'I' or t not in x.fv: return None
        for v in idx:
            if not (isinstance(v, T) and v.op == 'v' and v.sort == 'I'): continue
            mm = ((v, 1),)
            if mm not in p or abs(p[mm]) != 1: continue
            E = pscale({k: q for k, q in p.items() if k != mm}, -1 / p[mm])
            if any(v in a.fv for k in E for a, e in k): continue
            Et = p_to_term(E)
            others = and_(*[y.args[0] for y, _ in m if y is not x])
            if v in others.fv: continue
            d = s.N.nf(sub(subst(Et, {t: add(t, ONE)}), Et), ctx, 0)
            if padd(d, s.N.nfb(others, ctx, 0), -1): continue
            ctxw = ctx.extend(cond)
            val = p_to_term(s.N.nf(p_to_term(b), ctxw, 0)) if so != 'B' else s.N.p_to_b(s.N.nfb(s.N.p_to_b(b), ctxw, 0))
            I = lambda term, tt, i: subst(term, {t: tt, **dict(zip(idx, map(c, i)))})
            vi = list(idx).index(v); E0 = subst(Et, {t: ZERO})
            def cfa(tt, *i):
                r0 = I(sub(v, E0), ZERO, i)
                cnt = Sum(c(tt), lambda z: br(I(others, z, i)))
                sel = Nth(lambda z: I(others, z, i), r0)
                return ite(and_(le(ZERO, r0), lt(r0, cnt)), I(val, sel, i), f0(*i))
            return cfa
        return None
    def solve_U(s, key, e, H, t, idx, f0, ctx):
        # e = ite(c, val, H)
        if e.op == 'ite':
            cnd, a, b = e.args
            if b is H: val = a
            elif a is H: cnd, val = not_(cnd), b
            else: return None
            name = H.args[0]
            if name in appnames(cnd) or name in appnames(val): return None
            p = s.N.nfb(cnd, ctx, 0)
            I = lambda term, tt, i: subst(term, {t: tt, **dict(zip(idx, map(c, i)))})
            if len(p) == 1:
                (m, q), = p.items()
                for x, ex in m:
                    if x.op == 'br' and x.args[0].op == 'eq' and t in x.fv:
                        sol = solve_lin(x.args[0], t)
                        if sol is not None and t not in sol.fv:
                            rest = and_(*[y.args[0] for y, _ in m if y is not x])
                            def cfw(tt, *i):
                                ss = I(sol, ZERO, i)
                                return ite(and_(le(ZERO, ss), lt(ss, c(tt)), I(rest, ss, i)), I(val, ss, i), f0(*i))
                            return cfw
                r = None
                for x, ex in m:
                    if x.op != 'br' or x.args[0].op != 'eq': continue
                    pp = padd(poly_of(x.args[0].args[0]), poly_of(x.args[0].args[1]), -1) if x.args[0].args[0].sort == 'I' else None
                    if pp is None: continue
                    sums = [(mm, q2) for mm, q2 in pp.items() if len(mm) == 1 and mm[0][0].op == 'sum' and mm[0][0].args[0] is t]
                    if len(sums) != 1: continue
                    sm = sums[0][0][0][0]
                    rest = dict(pp); rest.pop(sums[0][0]); rest = pscale(rest, -1 / sums[0][1]); rt = p_to_term(rest)
                    if t in rt.fv: continue
                    selc = lambda z: and_(*[f.args[0] for f in flat_factors_list(instantiate(sm.args[1], z))])
                    def cfa(tt, *i):
                        r0 = I(rt, ZERO, i)
                        cnt = Sum(c(tt), lambda z: br(I(selc(t), z, i)))
                        return ite(and_(le(ZERO, r0), lt(r0, cnt)), I(val, Nth(lambda z: I(selc(t), z, i), r0), i), f0(*i))
                    return cfa
            cond = s.N.p_to_b(p)
            if t not in val.fv:
                return lambda tt, *i: ite(Exists(c(tt), lambda x: I(cond, x, i)), I(val, ZERO, i), f0(*i))
            def cfl(tt, *i):
                tt = c(tt)
                last = sub(sub(tt, ONE), ArgMax(tt, lambda x: br(I(cond, sub(sub(tt, ONE), x), i))))
                return ite(Exists(tt, lambda x: I(cond, x, i)), I(val, last, i), f0(*i))
            return cfl
        return None
    def solve_shift(s, key, e, H, t, idx, so, f0, ctx): return None

    def solve_argidx(s, key, e, H, t, idx, so, f0, ctx):
        """position of the best element so far:  b' = (F(b) < F(t)) ? t : b,  b = 0 at the start"""
        if so != 'I' or idx or s.no_closed or not s.N.nf(f0(), ctx, 0) == {}: return None
        name = H.args[0]
        for x in subterms(e):
            if x.op not in ('lt', 'le') or x.nb or name not in appnames(x): continue
            for pos in (x, not_(x)):
                neg = pos is not x
                yes, no = use_facts(e, [pos]), use_facts(e, [not_(pos)])
                if s.N.nf(sub(yes, t), ctx, 0) or s.N.nf(sub(no, H), ctx, 0): continue
                lo, hi = x.args if not neg else x.args[::-1]
                strict = (x.op == 'lt') != neg
                for F, other, up in ((hi, lo, True), (lo, hi, False)):       # F(t) is the side that does not read b
                    c2 = ctx.extend(le(ZERO, H), lt(H, t)); hv = fresh('b', 'I')
                    inst = lambda z: subst(F, {t: z})
                    if name in appnames(F):
                        F = repl_term(F, H, hv)      # F(t) read from memory that may depend on whether b = t
                        F = p_to_term(s.N.nf(F, c2.extend(le(ZERO, hv), lt(hv, t)), 0))
                        if hv in F.fv: continue
                    if t not in F.fv: continue
                    o = repl_term(other, H, hv)
                    c3 = ctx.extend(le(ZERO, hv), lt(hv, t))
                    if not s.zero_under_split(sub(o, subst(F, {t: hv})), c3): continue
                    A = ArgMax if up else ArgMin
                    def cfa(tt, F=F, A=A, strict=strict):
                        tt = c(tt); f = lambda z: subst(F, {t: z})
                        at = A(tt, f) if strict else sub(sub(tt, ONE), A(tt, lambda z: f(sub(sub(tt, ONE), z))))
                        return ite(lt(ZERO, tt), at, ZERO)
                    return cfa
        return None
    def solve_extremum(s, key, e, H, t, idx, so, f0, ctx):
        """running max / min:  v' = max(v, g(t))"""
        if so == 'B' or s.no_closed: return None
        name = H.args[0]
        cands = []
        if e.op == 'ite' and idx and t not in e.args[0].fv and name not in appnames(e.args[0]):
            for yes, no, gd in ((e.args[1], e.args[2], e.args[0]), (e.args[2], e.args[1], not_(e.args[0]))):
                if no is not H: continue
                r = s.solve_extremum(key, yes, H, t, idx, so, f0, ctx.extend(gd))      # only the elements of a range are updated
                if r is None: continue
                s.extrema.pop(key, None)
                return lambda tt, *i: ite(subst(gd, dict(zip(idx, map(c, i)))), r(tt, *i), f0(*i))
        for x in subterms(e):
            if x.op in ('lt', 'le') and name in appnames(x):
                a, b = x.args
                if a is H and name not in appnames(b): cands.append(b)
                if b is H and name not in appnames(a): cands.append(a)
                # linear form
                p = padd(s.N.nf(a, ctx, 0), s.N.nf(b, ctx, 0), -1)
                hm = [(m, q) for m, q in p.items() if any(name in appnames(y) for y, _ in m)]
                if len(hm) == 1 and len(hm[0][0]) == 1 and hm[0][0][0][1] == 1:
                    r = dict(p); r.pop(hm[0][0])
                    cands.append(p_to_term(pscale(r, -1 / hm[0][1])))
        for g in cands:
            for op in ('max', 'min'):
                ref = max2(H, g) if op == 'max' else min2(H, g)
                if s.zero_under_split(sub(e, ref), ctx):
                    I = lambda term, tt, i: subst(term, {t: tt, **dict(zip(idx, map(c, i)))})
                    B = Max if op == 'max' else Min
                    s.extrema[key] = (op, g, f0, idx)
                    def cfm(tt, *i):
                        tt = c(tt)
                        mm = B(tt, lambda x: I(g, x, i))
                        init = f0(*i)
                        return ite(lt(ZERO, tt), max2(init, mm) if op == 'max' else min2(init, mm), init)
                    return cfm
        return None
    extrema = {}
    def zero_under_split(s, d, ctx, depth=0):
        p = s.N.nf(d, ctx, 0)
        if not p: return True
        if depth > 6 or ctx.inconsistent(): return ctx.inconsistent()
        for m in p:
            for a, ex in m:
                if a.op == 'br':
                    cnd = a.args[0]
                    return s.zero_under_split(d, ctx.extend(cnd), depth + 1) and s.zero_under_split(d, ctx.extend(not_(cnd)), depth + 1)
        # equality facts (ties)
        pr = Prover(3, 300)
        try: return pr.prove_zero(p_to_term(p), ctx, 12)
        except Budget: return False

    def payload(s, e, H, t, idx, so, f0, ctx, syms, byname, outer, rr, unres):
        """what is recorded with every improvement of a running extremum: the value at the extremum's position"""
        if e is H or so == 'U': return None
        for ek, (op, g, g0, gi) in s.extrema.items():
            hn = syms[ek][0]
            if hn not in appnames(e): continue
            for x in subterms(e):
                if x.op not in ('lt', 'le') or x.nb or hn not in appnames(x): continue
                hs = [a for a in subterms(x) if a.op == 'app' and a.args[0] == hn]
                if len(hs) != 1 or hs[0].args[1] is not t: continue
                Hm = hs[0]; m = dict(zip(gi, Hm.args[2:2 + len(gi)]))
                gm = subst(g, m); init = g0(*Hm.args[2:2 + len(gi)])
                if any(t in z.fv for z in m.values()): continue
                better = lt(gm, Hm) if op == 'min' else lt(Hm, gm)
                weak = le(gm, Hm) if op == 'min' else le(Hm, gm)
                nf = lambda z, cc: (s.N.nfb if so == 'B' else s.N.nf)(z, cc, 0)
                hv = fresh('hm', Hm.sort)
                def ab(z): return rr(repl_term(z, Hm, hv))
                xa, ba, wa = ab(x), ab(better), ab(weak)
                same = lambda a, b: a is b or s.N.nfb(a, ctx, 0) == s.N.nfb(b, ctx, 0)
                how = 'first' if same(xa, ba) else 'last' if same(xa, wa) else None
                neg = False
                if how is None:
                    how = 'first' if same(not_(xa), ba) else 'last' if same(not_(xa), wa) else None; neg = True
                if how is None: continue
                yes, no = (x, not_(x)) if not neg else (not_(x), x)
                ey, en = use_facts(e, [yes]), use_facts(e, [no])
                if nf(rr(en), ctx) != nf(H, ctx): continue
                val = rr(ey)
                if unres(val) or hn in appnames(val): continue
                hvn = appnames(val)
                if H.args[0] in hvn: continue
                I = lambda term, tt, i: subst(term, {t: tt, **dict(zip(idx, map(c, i)))})
                B = Min if op == 'min' else Max; A = ArgMin if op == 'min' else ArgMax
                def cfp(tt, *i):
                    tt = c(tt); f = lambda z: I(gm, z, i); ini = I(init, tt, i)
                    best = B(tt, f)
                    imp = (lt(best, ini) if op == 'min' else lt(ini, best)) if how == 'first' else (le(best, ini) if op == 'min' else le(ini, best))
                    at = A(tt, f) if how == 'first' else sub(sub(tt, ONE), A(tt, lambda z: f(sub(sub(tt, ONE), z))))
                    return ite(and_(lt(ZERO, tt), imp), I(val, at, i), f0(*i))
                return cfp
        return None
    def solve_tracker(s, key, e, H, others, t, idx, so, f0, ctx, cf, syms, byname):
        """payload recorded at each new extremum"""
        return None if not idx == () else s._tracker(key, e, H, others, t, so, f0, ctx, cf, syms, byname)
    def _tracker(s, key, e, H, others, t, so, f0, ctx, cf, syms, byname):
        return None
    def align(s, p, H, idx, ctx, so):
        """rewrite reads H(t, a..) to H(t, idx..) where brackets of the monomial force a == idx"""
        if not idx: return p
        name = H.args[0]; out = {}
        for m, q in p.items():
            hs = [x for a, e in m for x in subterms(a) if x.op == 'app' and x.args[0] == name and x is not H]
            if not hs: out = padd(out, {m: q}); continue
            eqs = [a.args[0] for a, e in m if a.op == 'br' and a.args[0].op == 'eq']
            c2 = ctx.extend(*[a.args[0] for a, e in m if a.op == 'br'])
            t = m_to_term(m); ch = False
            for h in hs:
                ok = True
                for x, y in zip(h.args[1:], H.args[1:]):
                    if x is y: continue
                    d = s.N.nf(sub(x, y), c2, 0) if x.sort in 'IR' else {1: 1}
                    if d and x.sort in 'IR':
                        # one-step use of the equalities as substitutions
                        dt = p_to_term(d); good = False
                        for e1 in eqs:
                            for u, v in ((e1.args[0], e1.args[1]), (e1.args[1], e1.args[0])):
                                if u is y and not s.N.nf(sub(repl_term(sub(x, y), y, v), ZERO), ctx, 0): good = True
                            sol = solve_eq(e1, y) if y.op == 'v' else None
                            if sol is not None and not s.N.nf(sub(subst(x, {y: sol}), sol), ctx, 0): good = True
                        if not good and ctx.extend(*[a.args[0] for a, e in m if a.op == 'br']).decide(eq(x, y)) is not True: ok = False; break
                    elif x.sort not in 'IR' and x is not y:
                        if c2.decide(eq(x, y)) is not True: ok = False; break
                if ok: t = repl_term(t, h, H); ch = True
            if ch: out = padd(out, pmul(s.N.nf(t, ctx, 0) if so != 'B' else s.N.nf(t, ctx, 0), pconst(q)))
            else: out = padd(out, {m: q})
        return out
    def eqsubst(s, p, idx, ctx, tv=None, hname=None):
        """use [q == term] brackets to rewrite term to the index variable q in the same monomial"""
        out = {}
        for m, q in p.items():
            ch = False
            for a, e in m:
                if a.op == 'br' and a.args[0].op == 'eq':
                    x, y = a.args[0].args
                    for u in idx:
                        if not (isinstance(u, T) and u.op == 'v' and u in a.fv): continue
                        v = y if x is u else x if y is u else solve_eq(a.args[0], u)
                        if v is None or v is tv or v.op == 'c' or v in idx or u in v.fv: continue
                        rest = [(b, f) for b, f in m if b is not a and not (b.op == 'app' and b.args[0] == hname)]
                        kept = [(b, f) for b, f in m if b is not a and b.op == 'app' and b.args[0] == hname]
                        tt = m_to_term(tuple(rest))
                        t2 = repl_term(tt, v, u)
                        if t2 is not tt:
                            pp = s.N.nf(t2, ctx.extend(a.args[0]), 0)
                            pp = pmul(pp, {((a, 1),): q})
                            if kept: pp = pmul(pp, {tuple(kept): 1})
                            out = padd(out, pp); ch = True
                            break
                    if ch: break
                    # linear int: idx var expressed
            if not ch: out = padd(out, {m: q})
        return out

    def newN(s, t):
        nm = 'N!%s' % s.skname('loop', s.lnodes[-1])[0].split('!')[1]; o = tuple(x for x in s.loopvars if x is not t)
        return app(nm, o, 'I') if o else var(nm, 'I')
    def count(s, g, t, st, lid, has_exit):
        """number of iterations N with its facts"""
        if isc(g) and cv(g):
            N = s.newN(t)
            return N, [le(ZERO, N)]
        p = s.N.nfb(g, ROOT.extend(le(ZERO, t)), 0)
        g0 = s.N.p_to_b(p) if len(p) <= 2 else g
        if len(p) == 1 or len(p) == 2:
            gg = g0
            if gg.op == 'not' and gg.args[0].op == 'le':
                gg = lt(gg.args[0].args[1], gg.args[0].args[0])
            if gg.op == 'not' and gg.args[0].op == 'eq':
                # i != hi : i starts below hi and steps by one
                sol = solve_lin(gg.args[0], t)
                if sol is not None and t not in sol.fv:
                    if st.ctx.decide(le(ZERO, sol)): return sol, []
                    s.oblige('loop terminates (counter reaches its bound)', le(ZERO, sol), st)
                    return sol, [le(ZERO, sol)]
            if gg.op in ('lt', 'le'):
                b = bound_of(s.norm_cmp(gg), t)
                if b is not None and b[0] == 'ub' and t not in b[1].fv:
                    ub = b[1]
                    if st.ctx.decide(le(ZERO, ub)): return ub, []
                    if st.ctx.decide(lt(ub, ZERO)): return ZERO, []
                    return ite(lt(ZERO, ub), ub, ZERO), []
                b2 = bound_of_scaled(s.norm_cmp(gg), t)
                if b2 is not None:
                    num, k = b2        # k*t < num
                    N = idiv(add(num, c(k - 1)), c(k))
                    if st.ctx.decide(le(ZERO, num)): return N, []
                    return ite(lt(ZERO, num), N, ZERO), []
        N = s.newN(t)
        facts = [le(ZERO, N), not_(subst(g, {t: N})), Forall(N, lambda x: subst(g, {t: x}))]
        return N, facts
    def pre_count(s, g, t, st, lid):
        if isc(g): return []
        c0 = s.collect; s.collect = False
        try: Nt, _ = s.count(g, t, st, lid, False)
        finally: s.collect = c0
        if Nt.op == 'v' and '!' in Nt.args[0]: return []
        return [lt(t, Nt)]
    def norm_cmp(s, gg):
        a, b = gg.args
        pa = p_to_term(s.N.nf(a, ROOT, 0)); pb = p_to_term(s.N.nf(b, ROOT, 0))
        return mk(gg.op, (pa, pb), 'B')
    def unres_facts(s, unres, cf, t):
        return [le(ZERO, cf[(k, nm)](t)) for k, nm in unres if k in s.uns and nm == '']
    def carried(s, nx, hst, t):
        """what every completed iteration t leaves behind about the factors of the decompositions it made (their names carry t)"""
        if len(nx) != 1 or not s.ma.family: return []
        new = nx[0][1].ctx.allfacts()[len(hst.ctx.allfacts()):]
        fam = {nm for nm, lv in s.ma.family.items() if t in lv}
        def uses(f): return any(x.op == 'app' and x.args[0] in fam for x in subterms(f))
        ctx = hst.ctx.extend(*[f for f in new if not uses(f)]); out = []
        for f in new:
            if not uses(f): continue
            out.append(s.simp_or(f, ctx))
        return out
    def simp_or(s, f, ctx):
        """drops the disjuncts that are false in this context"""
        if f.op != 'or': return f
        keep = [g for g in f.args if ctx.decide(g) is not False]
        return or_(*keep)

    # ---------------------------------------------------------------- expressions
    def rv(s, x, st):
        if isinstance(x, LV):
            for tr in s.trace: tr.add((x.cell, IdBox(st.store.get(x.cell))))
            return s.read(x, st)
        if isinstance(x, Lazy): return s.force(x, st)
        return x
    def ev(s, n, st):
        m = getattr(s, 'e_' + n.kind, None)
        if m is None: raise Unsupported('expression ' + n.kind)
        return m(n, st)
    def val(s, n, st): return s.rv(s.ev(n, st), st)
    def cond(s, n, st):
        v = s.val(n, st)
        return s.tobool(v)
    def tobool(s, v):
        if isinstance(v, Ptr): return c(v.lv is not None)
        if not isinstance(v, T): raise Unsupported('condition of type ' + type(v).__name__)
        if v.sort == 'B': return v
        return ne(v, ZERO)
    def num(s, n, st):
        v = s.val(n, st)
        return s.scalar_of(v, st)
    def scalar_of(s, v, st):
        if isinstance(v, Mat):
            s.oblige('shape: 1x1 result used as scalar', and_(eq(v.rows, ONE), eq(v.cols, ONE)), st)
            return v.f(ZERO, ZERO)
        if isinstance(v, T):
            return br(v) if v.sort == 'B' else v
        raise Unsupported('scalar of ' + type(v).__name__)

    def e_ParenExpr(s, n, st): return s.ev(n.inner[0], st)
    e_ExprWithCleanups = e_ParenExpr
    e_MaterializeTemporaryExpr = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = lambda s, n, st: s.ev([x for x in n.inner if x is not None and x.kind != 'NonTypeTemplateParmDecl'][-1], st)
    e_CXXDefaultInitExpr = e_ParenExpr
    def e_IntegerLiteral(s, n, st): return c(int(n.get('value')))
    def e_FloatingLiteral(s, n, st):
        return c(Fraction(repr(float(n.get('value')))))
    def e_CXXBoolLiteralExpr(s, n, st): return c(bool(n.get('value')))
    def e_CharacterLiteral(s, n, st): return c(int(n.get('value')))
    def e_StringLiteral(s, n, st):
        v = n.get('value', '""')
        try:
            import ast as _a
            v = _a.literal_eval(v)
        except Exception: v = v.strip('"')
        return c(v)
    def e_CXXNullPtrLiteralExpr(s, n, st): return Ptr(None)
    def e_GNUNullExpr(s, n, st): return Ptr(None)
    def e_CXXThisExpr(s, n, st): return Ptr(s.frames[-1]['this'])
    def e_CXXDefaultArgExpr(s, n, st):
        if n.inner: return s.ev(n.inner[0], st)
        return DEFAULTARG
    def e_DeclRefExpr(s, n, st):
        rd = n.get('referencedDecl') or {}
        env = s.frames[-1]['env']
        i = rd.get('id')
        if i in env:
            v = env[i]
            if isinstance(v, LV):
                cellv = st.store.get(v.cell)
                if isinstance(cellv, LV) and not v.path: return cellv
                for tr in s.trace: tr.add((v.cell, IdBox(cellv)))
            return v
        if rd.get('kind') in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', i, rd.get('name'))
        nm = rd.get('name')
        if nm == 'all' or nm == 'placeholders': return Opaque('all')
        if nm in ('Infinity',): return INF
        if rd.get('kind') == 'EnumConstantDecl':
            return c(ENUMS.get(nm, abs(hash(nm)) % 1000 + 2000)) if nm in ENUMS else Opaque('enum:' + str(nm))
        d = s.u.idx.get(i)
        if d is not None and d.kind == 'VarDecl' and d.inner:
            return s.ev(d.inner[-1], st)
        if nm in ('cout', 'cerr', 'clog'): return Opaque('ostream')
        raise Unsupported('reference to ' + str(nm))
    def e_ImplicitCastExpr(s, n, st):
        ck = n.get('castKind')
        x = n.inner[0]
        if ck == 'LValueToRValue': return s.val(x, st)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion', 'ArrayToPointerDecay', 'BaseToDerived', 'UserDefinedConversion'):
            v = s.ev(x, st)
            return v
        if ck == 'IntegralCast':
            v = s.num(x, st)
            return s.icast(v, n.ctype, x.ctype, st)
        if ck == 'IntegralToFloating':
            v = s.num(x, st)
            return v
        if ck == 'FloatingToIntegral':
            v = s.num(x, st)
            return floor(v) if not isc(v) and s.entails(le(ZERO, v), st) else trunc(v)
        if ck == 'FloatingCast': return s.num(x, st)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return s.tobool(s.val(x, st))
        if ck == 'BooleanToSignedIntegral': return s.num(x, st)
        if ck in ('NullToPointer',): return Ptr(None)
        if ck == 'ToVoid': s.ev(x, st); return Opaque('void')
        if ck == 'BitCast': return s.ev(x, st)
        raise Unsupported('cast ' + str(ck))
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    def e_CXXFunctionalCastExpr(s, n, st):
        v = s.e_ImplicitCastExpr(n, st)
        return v
    def icast(s, v, to, frm, st):
        tt, ft = classify(to), classify(frm)
        if tt[0] == 'I' and tt[1] and not (ft[0] == 'I' and ft[1]):
            if isc(v): return c(int(cv(v)) % W64)
            if v.sort == 'I' and not s.nonneg(v, st): return ite(lt(v, ZERO), add(v, c(W64)), v)
        if tt[0] == 'I' and not tt[1] and isc(v) and cv(v) >= 2 ** 63: return c(int(cv(v)) - W64)
        return v
    def entails(s, cnd, st):
        d = st.ctx.decide(cnd)
        if d is not None: return d
        try: return Prover(2, 600).prove(cnd, st.ctx)
        except Budget: return False
    def nonneg(s, v, st):
        if isc(v): return cv(v) >= 0
        return st.ctx.decide(le(ZERO, v)) is True
    def e_ConditionalOperator(s, n, st):
        cnd = s.cond(n.inner[0], st)
        d = st.ctx.decide(cnd)
        if d is True: return s.ev(n.inner[1], st)
        if d is False: return s.ev(n.inner[2], st)
        a = st.branch(cnd); b = st.branch(not_(cnd))
        va = s.rv(s.ev(n.inner[1], a), a); vb = s.rv(s.ev(n.inner[2], b), b)
        m = s.merge_states(cnd, a, b, st)
        st.store = m.store; st.ctx = m.ctx
        return merge(cnd, va, vb)
    def e_UnaryOperator(s, n, st):
        op = n.get('opcode'); x = n.inner[0]
        if op in ('++', '--'):
            lv = s.ev(x, st); old = s.rv(lv, st)
            if isinstance(old, It): new = It(old.src, add(old.pos, ONE if op == '++' else c(-1)), old.kind)
            else:
                if op == '++': new = add(old, ONE)
                else: new = s.usub(old, ONE, n.ctype, st, n)
            s.write(lv, new, st, n)
            return old if n.get('isPostfix') else lv
        if op == '&':
            v = s.ev(x, st)
            if isinstance(v, LV): return Ptr(v)
            raise Unsupported('address of rvalue')
        if op == '*':
            v = s.val(x, st)
            return s.deref(v, st, n)
        if op == '!': return not_(s.cond(x, st))
        if op == '-':
            v = s.val(x, st)
            if isinstance(v, T): return -s.scalar_of(v, st)
        if op == '+': return s.val(x, st)
        raise Unsupported('unary ' + op)
    def deref(s, v, st, n=None):
        if isinstance(v, Ptr):
            if v.lv is None:
                s.oblige('no null dereference', FALSE, st, n)
                raise Unsupported('null dereference')
            return v.lv
        if isinstance(v, It): return s.it_deref(v, st, n)
        raise Unsupported('deref ' + type(v).__name__)
    def usub(s, a, b, t, st, n):
        r = sub(a, b)
        ty = classify(t)
        if ty[0] == 'I' and ty[1] and r.sort == 'I':
            if isc(r): return r if cv(r) >= 0 else c(int(cv(r)) + W64)
            d = st.ctx.decide(le(b, a))
            if d is True: return r
            return ite(le(b, a), r, add(r, c(W64)))
        return r
    def arith(s, op, a, b, t, st, n):
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'U' and op == '+': return fn('concat', a, b, sort='U')
            if a.sort == 'B': a = br(a)
            if b.sort == 'B': b = br(b)
            if op == '+': return add(a, b)
            if op == '-': return s.usub(a, b, t, st, n)
            if op == '*': return mul(a, b)
            if op in ('|', '&', '^') and isc(a) and isc(b): return c({'|': int.__or__, '&': int.__and__, '^': int.__xor__}[op](int(cv(a)), int(cv(b))))
            isint = classify(t)[0] == 'I'
            if op == '/':
                if isint:
                    s.oblige('no integer division by zero', ne(b, ZERO), st, n)
                    if s.nonneg(a, st) and s.nonneg(b, st): return idiv(a, b)
                    q = idiv(ite(lt(a, ZERO), -a, a), ite(lt(b, ZERO), -b, b))
                    return ite(eq(lt(a, ZERO), lt(b, ZERO)), q, -q)
                return div(a, b)
            if op == '%':
                s.oblige('no integer division by zero', ne(b, ZERO), st, n)
                if s.nonneg(a, st): return imod(a, b)
                return ite(lt(a, ZERO), -imod(-a, b), imod(a, b))
        if isinstance(a, It) and isinstance(b, T):
            if op == '+': return It(a.src, add(a.pos, b), a.kind)
            if op == '-': return It(a.src, sub(a.pos, b), a.kind)
        if isinstance(a, It) and isinstance(b, It) and op == '-': return sub(a.pos, b.pos)
        if isinstance(a, Ptr) and isinstance(b, T):   # data() + k
            return s.ptr_add(a, b if op == '+' else -b, st)
        raise Unsupported('arith %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
    def ptr_add(s, a, k, st): raise Unsupported('pointer arithmetic')
    def e_BinaryOperator(s, n, st):
        op = n.get('opcode'); x, y = n.inner
        if op == '=':
            v = s.val(y, st)
            lv = s.ev(x, st)
            s.assign(lv, v, st, n)
            return lv
        if op == ',':
            s.ev(x, st); return s.ev(y, st)
        if op in ('&&', '||'):
            a = s.cond(x, st)
            if isc(a):
                if op == '&&': return s.cond(y, st) if cv(a) else FALSE
                return TRUE if cv(a) else s.cond(y, st)
            g = a if op == '&&' else not_(a)
            st2 = st.branch(g)
            b = s.cond(y, st2)
            if any(st2.store[k] is not st.store.get(k) for k in st.store): raise Unsupported('side effect in short-circuit')
            return and_(a, b) if op == '&&' else or_(a, b)
        a = s.val(x, st); b = s.val(y, st)
        if op in ('<', '>', '<=', '>=', '==', '!='): return s.compare(op, a, b, st)
        return s.arith(op, a, b, n.ctype, st, n)
    def compare(s, op, a, b, st):
        if isinstance(a, It) and isinstance(b, It): a, b = a.pos, b.pos
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                e = (a.lv is None) == (b.lv is None) and (a.lv is None or (a.lv.cell == b.lv.cell and a.lv.path == b.lv.path))
                return c(e if op == '==' else not e)
            raise Unsupported('pointer compare')
        if isinstance(a, Vec) and isinstance(b, Vec) and op in ('==', '!='):
            e = and_(eq(a.n, b.n), Forall(a.n, lambda i: s.compare('==', a.f(i), b.f(i), st)))
            return e if op == '==' else not_(e)
        if isinstance(a, Tup) and isinstance(b, Tup) and op in ('==', '!='):
            e = and_(*[s.compare('==', p, q, st) for p, q in zip(a.xs, b.xs)])
            return e if op == '==' else not_(e)
        if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported('compare %s %s' % tuple(x.tag if isinstance(x, Opaque) else type(x).__name__ for x in (a, b)))
        for x, y, sw in ((a, b, False), (b, a, True)):   # a choice between two literals, compared with a literal, is the choice itself
            if isc(y) and x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]) and y.sort in 'IR' and x.sort in 'IR':
                o1, o2 = (s.compare(op, *((q, y) if not sw else (y, q)), st) for q in x.args[1:])
                if isc(o1) and isc(o2): return ite(x.args[0], o1, o2) if o1 is o2 else x.args[0] if o1 == TRUE else not_(x.args[0])
        if a.sort == 'B' and b.sort != 'B': a = br(a)
        if b.sort == 'B' and a.sort != 'B': b = br(b)
        return {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}[op](a, b)
    def e_CompoundAssignOperator(s, n, st):
        op = n.get('opcode')[:-1]; x, y = n.inner
        b = s.val(y, st)
        lv = s.ev(x, st); a = s.rv(lv, st)
        ct = (n.get('computeResultType') or {}).get('qualType') or n.ctype
        r = s.arith(op, a, b, ct, st, n)
        if classify(n.ctype)[0] == 'I' and r.sort == 'R': r = trunc(r)
        s.write(lv, r, st, n)
        return lv
    def assign(s, lv, v, st, n=None):
        """built-in or class assignment"""
        s.write(lv, v, st, n)
    def e_MemberExpr(s, n, st):
        b = s.ev(n.inner[0], st)
        if n.get('isArrow'):
            p = s.rv(b, st)
            b = s.deref(p, st, n)
        nm = n.name
        if isinstance(b, LV): 
            return b.at('f', nm)
        if isinstance(b, (Obj, Tup)): return s.get1(b, ('f', nm), st)
        raise Unsupported('member %s of %s %s' % (nm, type(b).__name__, getattr(b, 'tag', '')))
    def e_ArraySubscriptExpr(s, n, st):
        b = s.val(n.inner[0], st); i = s.num(n.inner[1], st)
        if isinstance(b, Ptr): return s.index(b.lv, i, st, n)
        raise Unsupported('array subscript')
    def e_LambdaExpr(s, n, st):
        fr = s.frames[-1]
        # find operator() decl
        op = None
        for x in n.inner:
            if x is not None and x.kind == 'CXXRecordDecl':
                for y in x.inner:
                    if y is not None and y.kind == 'CXXMethodDecl' and y.name == 'operator()': op = y
                    if y is not None and y.kind == 'FunctionTemplateDecl': op = y
        if op is None: raise Unsupported('lambda')
        env = dict(fr['env'])
        # by-copy captures snapshot: approximated as references when never modified later (staleness is checked by identity)
        return Lam(op, env, fr['this'])
    def call_lambda(s, lam, args, st, node=None):
        op = lam.node
        if op.kind == 'FunctionTemplateDecl':
            inst = [x for x in op.inner if x is not None and x.kind == 'CXXMethodDecl' and body_of(x) is not None]
            if not inst: raise Unsupported('generic lambda without an instantiation')
            op = inst[-1]
        env = dict(lam.env)
        for p, a in zip(params_of(op), args): env[p.id] = s.bind_param(p, a, st)
        frame = {'fn': s.frames[-1]['fn'] if s.frames else op, 'env': env, 'this': lam.this, 'exits': [], 'lambda': True, 'site': (id(node), id(op))}
        s.frames.append(frame)
        try:
            nst = s.stmt(body_of(op), st.copy())
            rets = [e for e in frame['exits'] if e.kind == 'return']
            throws = [e for e in frame['exits'] if e.kind == 'throw']
        finally: s.frames.pop()
        if nst is not None and rets and fn.kind in ('FunctionDecl', 'CXXMethodDecl') and not fn.type.startswith('void ('):
            s.oblige('control does not run off the end of a function that returns a value', FALSE, nst, node); nst = None
        if nst is not None: rets.append(Exit('return', nst, None))
        for e in throws: s.frames[-1]['exits'].append(e)
        return s.join_returns(rets, st)
    def e_InitListExpr(s, n, st):
        ty = classify(n.ctype)
        xs = [s.val(x, st) for x in n.inner if x is not None]
        if ty[0] in 'IRBU' : return xs[0] if xs else default_value(ty, s)
        if ty[0] == 'tup': return Tup(xs)
        cls = s.find_class(n.ctype)
        if cls is not None:
            fields = s.fields_of(cls)
            f = {}
            for i, fd in enumerate(fields): f[fd.name] = xs[i] if i < len(xs) else default_value(classify(fd.ctype), s)
            return Obj(cls, f)
        return ('initlist', xs)
    def e_CXXStdInitializerListExpr(s, n, st):
        x = n.inner[0]
        while x.kind in ('MaterializeTemporaryExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CXXBindTemporaryExpr'): x = x.inner[0]
        return ('initlist', [s.val(y, st) for y in x.inner if y is not None])
    def e_ImplicitValueInitExpr(s, n, st): return default_value(classify(n.ctype), s)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_UnaryExprOrTypeTraitExpr(s, n, st): return c(8)
    def e_CXXNewExpr(s, n, st): raise Unsupported('new')
    def e_CXXThrowExpr(s, n, st):
        s.frames[-1]['exits'].append(Exit('throw', st.copy(), n))
        return s.dead(st)

    # ---- classes
    def find_class(s, t):
        t = strip(t)
        hits = []
        if '>::' in t:
            # a class nested in a template instance
            k = t.rindex('>::')
            outer, nm = s.find_class(t[:k + 1]), t[k + 3:]
            if outer is not None and '<' not in nm:
                for x in outer.inner:
                    if x is not None and x.kind == 'CXXRecordDecl' and x.name == nm and not x.get('isImplicit'): return x
        base, targs = split_targs(t)
        for q, lst in s.u.byname.items():
            if q == base or q.split('::')[-1] == base.split('::')[-1]:
                for cl in lst:
                    if cl.kind == 'ClassTemplateSpecializationDecl':
                        ta = [x.type for x in cl.inner if x is not None and x.kind == 'TemplateArgument']
                        hits.append((q, cl, ta))
                    else: hits.append((q, cl, None))
        exact = [h for h in hits if h[0] == base]
        if exact: hits = exact
        elif hits:
            # unqualified spelling inside its own namespace
            hits = [h for h in hits if h[0].endswith('::' + base) or h[0] == base]
        if not hits: return None
        if len(hits) > 1 and targs:
            def norm(x): return x.replace('Eigen::', '').replace('std::', '').replace('openml::', '').replace(' ', '')
            best = [h for h in hits if h[2] and norm(h[2][0]) == norm(targs[0])]
            best2 = [h for h in best if len(h[2]) >= len(targs) and all(norm(a) == norm(b) for a, b in zip(h[2], targs))]
            if best2: return best2[0][1]
            if best: return best[0][1]
        comp = [h for h in hits if h[1].get('completeDefinition') or any(x is not None and x.kind == 'FieldDecl' for x in h[1].inner)]
        return (comp or hits)[0][1]
    def bases_of(s, cls):
        out = []
        for b in cls.get('bases') or []:
            t = b['type'].get('desugaredQualType') or b['type']['qualType']
            k = s.find_class(t)
            if k is not None: out.append(k)
        return out
    def fields_of(s, cls):
        return [x for x in cls.inner if x is not None and x.kind == 'FieldDecl']
    def default_class(s, t):
        cls = s.find_class(t)
        if cls is None: return Opaque(strip(t))
        f = {}
        s.init_fields(cls, f)
        return Obj(cls, f)
    def init_fields(s, cls, f):
        for b in s.bases_of(cls): s.init_fields(b, f)
        for fd in s.fields_of(cls):
            f[fd.name] = s.uninit(classify(fd.ctype), fd, None)
    def construct(s, t, ctor_type, args, st, node):
        cls = s.find_class(t)
        if cls is None: raise Unsupported('class ' + t)
        f = {}
        s.init_fields(cls, f)
        cell = s.new_cell(st, Obj(cls, f), 'obj')
        lv = LV(cell)
        s.run_ctor(cls, ctor_type, args, lv, st)
        v = st.store[cell]
        return v
    def ctors(s, cls):
        out = []
        for x in cls.inner:
            if x is None: continue
            if x.kind == 'CXXConstructorDecl': out.append(x)
            if x.kind == 'FunctionTemplateDecl':
                out += [y for y in x.inner if y is not None and y.kind == 'CXXConstructorDecl' and body_of(y) is not None]
        return out
    def run_ctor(s, cls, ctor_type, args, lv, st):
        cs = s.ctors(cls)
        cand = [x for x in cs if x.type == ctor_type]
        if not cand: cand = [x for x in cs if len(params_of(x)) == len(args) and (body_of(x) is not None)]
        if not cand:
            if args: raise Unsupported('constructor %s' % ctor_type)
            cand = []
        ctor = cand[0] if cand else None
        if ctor is not None and ctor.get('isImplicit') or ctor is None or (ctor.get('explicitlyDefaulted')):
            if ctor is not None and len(args) == 1 and len(params_of(ctor)) == 1:
                s.write(lv, s.rv(args[0], st), st); return
            # default member initialisers
            for fd in s.fields_of(cls):
                ini = [x for x in fd.inner if x is not None and not x.kind.endswith('Attr') and not x.kind.endswith('Comment')]
                if ini and fd.get('hasInClassInitializer'):
                    s.frames.append({'fn': s.frames[-1]['fn'], 'env': {}, 'this': lv, 'exits': []})
                    v = s.val(ini[-1], st)
                    s.frames.pop()
                    s.write(lv.at('f', fd.name), v, st)
            for b in s.bases_of(cls): s.run_ctor(b, 'void ()', [], lv, st)
            return
        env = {}
        for p, a in zip(params_of(ctor), args): env[p.id] = s.bind_param(p, a, st)
        frame = {'fn': ctor, 'env': env, 'this': lv, 'exits': [], 'site': ('ctor', id(ctor))}
        s.inlined.add(ctor.qual)
        s.frames.append(frame)
        try:
            inits = [x for x in ctor.inner if x is not None and x.kind == 'CXXCtorInitializer']
            done = set()
            for ci in inits:
                if 'baseInit' in ci.a:
                    bt = ci.a['baseInit'].get('desugaredQualType') or ci.a['baseInit']['qualType']
                    b = s.find_class(bt)
                    if b is None: continue
                    x = ci.inner[0]
                    while x.kind in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): x = x.inner[0]
                    bargs = [s.ev(y, st) for y in x.inner if y is not None]
                    s.run_ctor(b, (x.get('ctorType') or {}).get('qualType', 'void ()'), bargs, lv, st)
                elif 'anyInit' in ci.a:
                    fd = ci.a['anyInit']
                    ft = fd['type'].get('desugaredQualType') or fd['type']['qualType']
                    x = ci.inner[0]
                    if x.kind == 'CXXDefaultInitExpr' and not x.inner:
                        fld = next((q for q in s.fields_of(cls) if q.name == fd['name']), None)
                        ini = [q for q in (fld.inner if fld is not None else []) if q is not None and not q.kind.endswith(('Attr', 'Comment'))]
                        if not ini: raise Unsupported('member initialiser not in the AST')
                        x = ini[-1]
                    v = s.val(x, st)
                    if isinstance(v, tuple) and v and v[0] == 'initlist': v = v[1][0]
                    v = s.convert_to(v, ft, st, ci)
                    s.write(lv.at('f', fd['name']), v, st)
                    done.add(fd['name'])
            st2 = s.stmt(body_of(ctor), st)
            if st2 is None or frame['exits']:
                rets = [e for e in frame['exits'] if e.kind == 'return']
                throws = [e for e in frame['exits'] if e.kind == 'throw']
                if rets: raise Unsupported('return in constructor')
                if throws and len(s.frames) > 1: s.frames[-2]['exits'] += throws
                if st2 is None: s.dead(st)
                else: st.store = st2.store; st.ctx = st2.ctx; st.path = st2.path
            elif st2 is not st: st.store = st2.store; st.ctx = st2.ctx; st.path = st2.path
        finally: s.frames.pop()

    def find_override(s, cls, fn):
        """dynamic dispatch of a (virtual) method on the dynamic class"""
        name = fn.name; np = len(params_of(fn)); ty = fn.type
        def go(k):
            best = None
            for x in k.inner:
                if x is None: continue
                if x.kind == 'CXXMethodDecl' and x.name == name and len(params_of(x)) == np and (x.type == ty or x.type.replace('override', '').strip() == ty):
                    d = s.u.defs.get(x.id)
                    if d is not None: return d
            for b in s.bases_of(k):
                r = go(b)
                if r is not None: return r
            return best
        return go(cls)

class IdBox:
    """identity-comparable reference to a store value"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __eq__(s, o): return s.v is o.v
    def __hash__(s): return id(s.v)
DEFAULTARG = Opaque('default')
INF = c(-1)      # const int Eigen::Infinity = -1
ENUMS = {'Infinity': -1, 'ComputeFullU': 4, 'ComputeThinU': 8, 'ComputeFullV': 16, 'ComputeThinV': 32, 'Success': 0}

def same_value(a, b):
    if a is b: return True
    if isinstance(a, T) or isinstance(b, T): return a is b
    if isinstance(a, It) and isinstance(b, It): return a.pos is b.pos
    if isinstance(a, Ptr) and isinstance(b, Ptr): return rigid(a) == rigid(b)
    if isinstance(a, Tup) and isinstance(b, Tup): return all(same_value(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Obj) and isinstance(b, Obj): return a.cls is b.cls and all(same_value(a.f[n], b.f[n]) for n in a.f)
    if isinstance(a, LV) and isinstance(b, LV): return a.cell == b.cell and a.path == b.path
    return False
def rigid(v):
    """parts of a value a loop summary cannot describe: they must not change"""
    if isinstance(v, T) or v is None: return []
    if isinstance(v, Ptr): return [('p',) + ((v.lv.cell, v.lv.path) if v.lv is not None else (None,))]
    if isinstance(v, LV): return [('l', v.cell, v.path)]
    if isinstance(v, Tup): return [y for x in v.xs for y in rigid(x)]
    if isinstance(v, Obj): return [('c', id(v.cls))] + [y for n in sorted(v.f) for y in rigid(v.f[n])]
    if isinstance(v, It): return [('i', v.kind)] + (rigid(v.src) if isinstance(v.src, LV) else [])
    if isinstance(v, Vec):
        try: return rigid(v.f(var('%rigid', 'I')))
        except Exception: return [('?', id(v))]
    if isinstance(v, (Mat, MapV, SetV, Opaque)): return []
    return [('o', id(v))]
def flatten_cell(v):
    if isinstance(v, Lazy): raise Unsupported('lazy value modified in loop')
    if isinstance(v, LV): return []
    return flatten(v)
def in_range(nm, idx, comps):
    """range facts for the indices of a flattened component name"""
    out = []; k = 0; i = 0
    while i < len(nm):
        if nm.startswith('[]', i):
            ln = comps.get(nm[:i] + 'len')
            if ln is None: return out
            out += [le(ZERO, idx[k]), lt(idx[k], ln(*idx[:k]))]; k += 1; i += 2
        elif nm.startswith('@', i):
            k += 1; i += 1
        elif nm.startswith('el', i) and i + 2 == len(nm):
            r = comps.get(nm[:i] + 'rows'); cc = comps.get(nm[:i] + 'cols')
            if r is not None and cc is not None and len(idx) == k + 2:
                out += [le(ZERO, idx[k]), lt(idx[k], r(*idx[:k])), le(ZERO, idx[k + 1]), lt(idx[k + 1], cc(*idx[:k]))]
            return out
        else: i += 1
    return out
def unflatten_cell(v, prov):
    if isinstance(v, (Lazy, LV)): return v
    return unflatten(v, prov)
def closed_cell(v, g):
    if isinstance(v, LV): return LV(v.cell, tuple(tuple(g(x) if isinstance(x, T) else x for x in acc) for acc in v.path))
    if isinstance(v, Lazy): return Opaque('stale')
    return mapval(v, g)
def p_atom_of(N, H, so):
    if so == 'B': return mk_br(H)
    return H
def use_facts(e, facts):
    """replace boolean subterms that are literally facts by true (their negations by false)"""
    if not facts: return e
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.sort == 'B' and t in facts: r = TRUE
        elif t.sort == 'B' and t.op != 'c' and not_(t) in facts: r = FALSE
        elif t.op in ('c', 'v', 'b', 'sum') or t.op in ('forall', 'exists'): r = t
        else: r = rebuild(t, tuple(go(a) if isinstance(a, T) else a for a in t.args))
        memo[t] = r
        return r
    return go(e)
def repl_term(t, a, b):
    memo = {}
    def go(t):
        if t is a: return b
        r = memo.get(t)
        if r is not None: return r
        if t.op in ('c', 'v', 'b'): r = t
        else: r = rebuild(t, tuple(go(x) if isinstance(x, T) else x for x in t.args))
        memo[t] = r
        return r
    return go(t)
def is01(p, N, ctx):
    """syntactic 0/1 check: a single product of brackets, or 1 minus such, or decided by enumeration of its bracket atoms"""
    ats = []
    for m in p:
        for a, e in m:
            if a.op != 'br': return False
            if a not in ats: ats.append(a)
    if len(ats) > 8: return False
    for vals in itertools.product((0, 1), repeat=len(ats)):
        d = dict(zip(ats, vals)); v = 0
        for m, q in p.items():
            x = q
            for a, e in m: x *= d[a]
            v += x
        if v not in (0, 1):
            # a combination of brackets that cannot occur does not count
            lits = [a.args[0] if d[a] else not_(a.args[0]) for a in ats]
            k = ctx.extend(*lits)
            if k.inconsistent(): continue
            from prove import Prover
            try:
                if Prover(3, 1000).prove(FALSE, k): continue
            except Exception: pass
            return False
    return True
def bound_of_scaled(e, x):
    """k*x < num with integer k>0"""
    p = padd(poly_of(e.args[0]), poly_of(e.args[1]), -1)
    k = None; rest = {}
    for m, q in p.items():
        if any(x in a.fv for a, _ in m):
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1 and q > 0 and q.denominator == 1: k = int(q)
            else: return None
        else: rest[m] = q
    if k is None: return None
    if not all(all(a.sort == 'I' and ex > 0 for a, ex in m) and q.denominator == 1 for m, q in rest.items()): return None
    return p_to_term(padd(pscale(rest, -1), pconst(1 if e.op == 'le' else 0))), k
