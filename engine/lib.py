"""Contracts (assumed, documented) of the library operations used by the code under verification:
Eigen dense expressions, std containers/algorithms, <cmath>.  Every operation also emits the library's own
preconditions (index in range, conforming shapes, non-empty reduction) as obligations."""
from fractions import Fraction
import itertools
from terms import *
import terms as TM
from norm import *
from prove import *
from values import *
from interp import *
import interp as IP

class UserThrow(Exception): pass
PI = Fraction(repr(3.141592653589793))
LN2 = None

def dims1(m):
    return m
def unwrap(n):
    while n is not None and n.kind in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr'):
        n = n.inner[0]
    return n
VIEWACC = {'blk', 'T', 'diag', 'kind', 'noalias', 'cast'}
class Dist(Opaque):
    __slots__ = ('lo', 'hi', 'integer')
    def bounds(s, x): return and_(le(s.lo, x), le(x, s.hi))
STREAMS = ('basic_ostringstream', 'ostringstream', 'basic_ostream', 'ostream', 'basic_istringstream', 'istringstream', 'basic_ifstream', 'ifstream', 'basic_stringstream', 'stringstream')

class StreamSrc:
    def __init__(s, src): s.src = src
def is_stream(v): return isinstance(v, Obj) and isinstance(v.cls, StreamSrc)
class Lib(Interp):
    def __init__(s, *a, **kw):
        super().__init__(*a, **kw)
        s.top_throws = []; s.extrema = {}

    # =============================================================== calls
    def e_CallExpr(s, n, st):
        callee = unwrap(n.inner[0])
        args = n.inner[1:]
        if callee.kind == 'DeclRefExpr':
            rd = callee.get('referencedDecl') or {}
            fn = s.u.defs.get(rd.get('id'))
            if fn is not None:
                vals = [s.ev(a, st) for a in args]
                return s.call(fn, None, vals, st, n)
            return s.libcall(rd.get('name'), args, n, st, callee)
        if callee.kind == 'MemberExpr': return s.e_CXXMemberCallExpr(n, st)
        v = s.val(callee, st)
        if isinstance(v, Lam): return s.call_lambda(v, [s.ev(a, st) for a in args], st, n)
        raise Unsupported('call of ' + callee.kind)
    def e_CXXMemberCallExpr(s, n, st):
        callee = unwrap(n.inner[0]); args = n.inner[1:]
        if callee.kind != 'MemberExpr': raise Unsupported('member call ' + callee.kind)
        base = s.ev(callee.inner[0], st)
        name = callee.name
        if callee.get('isArrow'):
            bv = s.rv(base, st)
            if isinstance(bv, (Ptr, It)): base = s.deref(bv, st, n)
            else: base = bv
        mid = callee.get('referencedMemberDecl')
        obj = s.rv(base, st) if not isinstance(base, LV) else s.read(base, st)
        if isinstance(obj, Obj) and not is_stream(obj):
            fn = s.u.defs.get(mid)
            decl = fn or s.u.idx.get(mid)
            if decl is not None:
                ovr = s.find_override(obj.cls, decl)
                if ovr is not None: fn = ovr
            if fn is None:
                fn = s.find_method(obj.cls, name, len(args))
            if fn is None: raise Unsupported('method %s without body' % name)
            lv = base if isinstance(base, LV) else LV(s.new_cell(st, obj, 'tmpobj'))
            vals = [s.ev(a, st) for a in args]
            return s.call(fn, lv, vals, st, n)
        return s.libmethod(name, base, obj, args, n, st, callee)
    def find_method(s, cls, name, na):
        for x in cls.inner:
            if x is not None and x.kind == 'CXXMethodDecl' and x.name == name and body_of(x) is not None: return x
        for b in s.bases_of(cls):
            r = s.find_method(b, name, na)
            if r is not None: return r
        return None
    def e_CXXOperatorCallExpr(s, n, st):
        callee = unwrap(n.inner[0]); args = n.inner[1:]
        rd = callee.get('referencedDecl') or {}
        fn = s.u.defs.get(rd.get('id'))
        name = rd.get('name') or callee.name or ''
        op = name.replace('operator', '', 1).strip()
        if fn is not None and not fn.get('isImplicit'):
            vals = [s.ev(a, st) for a in args]
            if fn.kind == 'CXXMethodDecl':
                tv = vals[0] if isinstance(vals[0], LV) else None
                if isinstance(s.rv(vals[0], st), Lam): return s.call_lambda(s.rv(vals[0], st), vals[1:], st, n)
                if tv is None: tv = LV(s.new_cell(st, vals[0], 'tmpobj'))
                return s.call(fn, tv, vals[1:], st, n)
            return s.call(fn, None, vals, st, n)
        return s.operator(op, args, n, st)

    # =============================================================== operators on library types
    def operator(s, op, args, n, st):
        if op == '=':
            rhs = s.val(args[1], st)
            lv = s.ev(args[0], st)
            return s.lib_assign(lv, rhs, st, n)
        if op == '()':
            base = s.ev(args[0], st); v = s.rv(base, st)
            if isinstance(v, Lam): return s.call_lambda(v, [s.ev(a, st) for a in args[1:]], st, n)
            if isinstance(v, Opaque): return s.opaque_call(v, args[1:], n, st)
            idx = [s.val(a, st) for a in args[1:]]
            return s.mat_index(base, v, idx, st, n)
        if op == '[]':
            base = s.ev(args[0], st); i = s.val(args[1], st)
            return s.index(base, i, st, n)
        if op in ('<<', '>>'):
            l = s.ev(args[0], st); lv = s.rv(l, st)
            if is_stream(lv) and op == '>>': return s.stream_get(l, lv, s.ev(args[1], st), st, n)
            if isinstance(lv, Opaque):
                if op == '<<':
                    try: s.ev(args[1], st.copy())
                    except Unsupported: pass
                    return l
                raise Unsupported('stream extraction')
            if isinstance(lv, Mat): return s.comma_start(l, lv, s.val(args[1], st), st, n)
            if isinstance(lv, T): return s.arith(op, lv, s.val(args[1], st), n.ctype, st, n)
            raise Unsupported('operator' + op)
        if op == ',':
            l = s.val(args[0], st)
            if isinstance(l, Comma): return s.comma_next(l, s.val(args[1], st), st, n)
            s.ev(args[1], st)
            return s.ev(args[1], st)
        if op in ('++', '--'):
            lv = s.ev(args[0], st); old = s.rv(lv, st)
            if isinstance(old, It):
                s.write(lv, It(old.src, add(old.pos, ONE if op == '++' else c(-1)), old.kind), st, n)
                return old if len(args) > 1 else lv
            raise Unsupported('operator' + op)
        if op == '->':
            v = s.val(args[0], st)
            if isinstance(v, It): return Ptr(s.lvof(s.it_deref(v, st, n), st))
            return v
        if op == '*' and len(args) == 1:
            return s.deref(s.val(args[0], st), st, n)
        if op == '-' and len(args) == 1:
            v = s.val(args[0], st)
            if isinstance(v, Mat): return v.map(lambda x: -x)
            return -v
        if op == '!' and len(args) == 1:
            v = s.val(args[0], st)
            if isinstance(v, Mat): return v.map(not_, 'B')
            if is_stream(v): return not_(v.f['ok'])
            return not_(s.tobool(v))
        if op in ('+=', '-=', '*=', '/='):
            b = s.val(args[1], st)
            lv = s.ev(args[0], st); a = s.rv(lv, st)
            if isinstance(a, It):
                s.write(lv, s.arith(op[0], a, b, 'long', st, n), st, n); return lv
            if isinstance(a, VWise):
                r = s.vwise_op(op[0], a, b, st, n)
                s.write(a.src, r, st, n); return lv
            if isinstance(a, T):
                s.write(lv, s.arith(op[0], a, b, n.ctype, st, n), st, n); return lv
            r = s.binop(op[0], a, b, st, n)
            return s.lib_assign(lv, r, st, n)
        a = s.val(args[0], st); b = s.val(args[1], st)
        if op in ('<', '>', '<=', '>=', '==', '!=') and not (isinstance(a, Mat) or isinstance(b, Mat)):
            return s.compare(op, a, b, st)
        return s.binop(op, a, b, st, n)
    def lvof(s, x, st):
        return x if isinstance(x, LV) else LV(s.new_cell(st, x, 'tmp'))

    def samesize(s, a, b, st, n, what='elementwise operation'):
        cs = []
        if a.ct == 'row' and b.ct == 'row': cs = [eq(a.cols, b.cols)]
        elif a.ct == 'col' and b.ct == 'col': cs = [eq(a.rows, b.rows)]
        else: cs = [eq(a.rows, b.rows), eq(a.cols, b.cols)]
        s.oblige('shape: operands of %s have equal size' % what, and_(*cs), st, n)
    def binop(s, op, a, b, st, n):
        if isinstance(a, VWise): return s.vwise_op(op, a, b, st, n)
        if isinstance(a, Decomp) and a.kind == 'perm' and isinstance(b, Mat) and op == '*': return s.perm_left(a, b, st, n)
        if isinstance(b, Decomp) and b.kind == 'perm' and isinstance(a, Mat) and op == '*': return s.perm_right(a, b, st, n)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op == '*' and (a.kind == 'M' or b.kind == 'M') and not (a.kind == 'A' and b.kind == 'A'):
                return s.product(a, b, st, n)
            s.samesize(a, b, st, n)
            f = s.elop(op, a, b, st, n)
            ct = a.ct if a.ct != 'mat' else b.ct
            return Mat(a.rows, a.cols, lambda i, j: f(a.f(i, j), b.f(i, j)), a.kind, s.ores(op, a, b), ct, nc=(lambda A: A.add(A.nc(a), A.nc(b), 1 if op == '+' else -1)) if op in '+-' else None)
        if isinstance(a, Mat):
            bb = s.scalar_of(b, st)
            f = s.elop(op, a, bb, st, n)
            return Mat(a.rows, a.cols, lambda i, j: f(a.f(i, j), bb), a.kind, s.ores(op, a, bb), a.ct, nc=(lambda A: A.scale(A.nc(a), bb if op == '*' else inv(bb))) if op in '*/' and a.es == 'R' else None)
        if isinstance(b, Mat):
            aa = s.scalar_of(a, st)
            f = s.elop(op, aa, b, st, n)
            return Mat(b.rows, b.cols, lambda i, j: f(aa, b.f(i, j)), b.kind, s.ores(op, aa, b), b.ct, nc=(lambda A: A.scale(A.nc(b), aa)) if op == '*' and b.es == 'R' else None)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.compare(op, a, b, st)
        if isinstance(a, T) and isinstance(b, T):
            if op in ('<', '>', '<=', '>=', '==', '!='): return s.compare(op, a, b, st)
            return s.arith(op, a, b, n.ctype if n else 'double', st, n)
        if isinstance(a, It): return s.arith(op, a, b, 'long', st, n)
        raise Unsupported('operator%s on %s,%s' % (op, type(a).__name__, type(b).__name__))
    def ores(s, op, a, b):
        if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'): return 'B'
        es = [x.es if isinstance(x, Mat) else x.sort for x in (a, b)]
        return 'R' if 'R' in es else 'I'
    def elop(s, op, a, b, st, n):
        ea, eb = [x.es if isinstance(x, Mat) else x.sort for x in (a, b)]
        nb = lambda x: br(x) if x.sort == 'B' else x
        if op == '/':
            if ea == 'I' and eb == 'I' and (isinstance(a, Mat) and isinstance(b, Mat)): raise Unsupported('integer array division')
            if ea == 'I' and eb == 'I': 
                mm = a if isinstance(a, Mat) else b
                return lambda x, y: trunc(div(x, y))
            return lambda x, y: div(nb(x), nb(y))
        if op == '+': return lambda x, y: add(nb(x), nb(y))
        if op == '-': return lambda x, y: sub(nb(x), nb(y))
        if op == '*': return lambda x, y: mul(nb(x), nb(y))
        if op == '&&': return lambda x, y: and_(x, y)
        if op == '||': return lambda x, y: or_(x, y)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            g = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}[op]
            return lambda x, y: g(nb(x) if op not in ('==', '!=') or y.sort != 'B' else x, nb(y) if op not in ('==', '!=') or x.sort != 'B' else y)
        raise Unsupported('array operator' + op)
    def product(s, a, b, st, n):
        s.oblige('shape: inner dimensions of matrix product agree', eq(a.cols, b.rows), st, n)
        k = a.cols
        if isc(b.rows): k = b.rows
        ct = 'row' if a.ct == 'row' and b.ct != 'col' else 'col' if b.ct == 'col' and a.ct != 'row' else 'mat'
        es = 'R' if 'R' in (a.es, b.es) else 'I'
        nb = lambda x: br(x) if x.sort == 'B' else x
        def f(i, j):
            i = c(i); j = c(j)
            if a.ct == 'row': i = ZERO
            if b.ct == 'col': j = ZERO
            return Sum(k, lambda l: mul(nb(a.f(i, l)), nb(b.f(l, j))))
        r = Mat(a.rows, b.cols, f, 'M', es, ct, nc=lambda A: A.mul(A.nc(a), A.nc(b)))
        if s.ma.rules: s.ma.orth_product(r, st)
        return r
    def vwise_op(s, op, a, b, st, n):
        m = s.rv(a.src, st) if isinstance(a.src, LV) else a.src
        if not isinstance(b, Mat): raise Unsupported('vectorwise op with scalar')
        if a.axis == 'row':
            s.oblige('shape: broadcast vector has as many entries as there are columns', eq(m.cols, b.size() if b.ct != 'mat' else b.cols), st, n)
            g = lambda i, j: b.lin(j) if b.ct != 'mat' else b.f(ZERO, j)
        else:
            s.oblige('shape: broadcast vector has as many entries as there are rows', eq(m.rows, b.size() if b.ct != 'mat' else b.rows), st, n)
            g = lambda i, j: b.lin(i) if b.ct != 'mat' else b.f(i, ZERO)
        f = s.elop(op, m, b, st, n)
        return Mat(m.rows, m.cols, lambda i, j: f(m.f(i, j), g(i, j)), m.kind, s.ores(op, m, b), m.ct)

    def lib_assign(s, lv, v, st, n):
        """library class assignment"""
        if isinstance(lv, Tup):          # std::tie
            if isinstance(v, Tup):
                for x, y in zip(lv.xs, v.xs):
                    if isinstance(x, LV): s.lib_assign(x, y, st, n)
                return lv
        if isinstance(lv, Opaque): return lv
        if not isinstance(lv, LV): raise Unsupported('assignment to temporary')
        old = s.read(lv, st)
        if isinstance(v, tuple) and v and v[0] == 'initlist':
            v = s.from_initlist(old, v[1], st)
        if isinstance(old, Mat):
            view = bool(lv.path) and lv.path[-1][0] in VIEWACC
            while view and lv.path and lv.path[-1][0] in ('noalias', 'kind'):
                lv = LV(lv.cell, lv.path[:-1]); view = bool(lv.path) and lv.path[-1][0] in VIEWACC
            if isinstance(v, VWise): raise Unsupported('assign vectorwise')
            if isinstance(v, T):
                if old.kind == 'A':
                    s.write(lv, Mat(old.rows, old.cols, lambda i, j: v, old.kind, old.es, old.ct), st, n); return lv
                raise Unsupported('scalar to matrix')
            if isinstance(v, Mat):
                if old.ct == 'col' and v.ct == 'row' or old.ct == 'row' and v.ct == 'col': v = v.T()
                if view:
                    if old.ct == 'col' and v.ct == 'col': s.oblige('shape: assigned vector fits the block', eq(old.rows, v.rows), st, n)
                    elif old.ct == 'row' and v.ct == 'row': s.oblige('shape: assigned vector fits the block', eq(old.cols, v.cols), st, n)
                    else: s.oblige('shape: assigned matrix fits the block', and_(eq(old.rows, v.rows), eq(old.cols, v.cols)), st, n)
                    vf = v.f
                    conv = s.elconv(v.es, old.es)
                    s.write(lv, Mat(old.rows, old.cols, (lambda i, j: conv(vf(i, j))), old.kind, old.es, old.ct), st, n)
                    return lv
                ty = ('mat', old.es, old.ct, old.kind, (None, None), None)
                s.write(lv, s.to_plain(v, ty, st, n), st, n)
                return lv
            if isinstance(v, Decomp) and v.kind == 'perm':
                s.write(lv, s.to_plain(s.perm_mat(v), ('mat', old.es, old.ct, old.kind, (None, None), None), st, n), st, n); return lv
            raise Unsupported('assign %s to matrix' % type(v).__name__)
        if isinstance(old, VWise):
            m = s.read(old.src, st)
            if isinstance(v, Mat):
                if old.axis == 'row': g = lambda i, j: v.lin(j) if v.ct != 'mat' else v.f(ZERO, j)
                else: g = lambda i, j: v.lin(i) if v.ct != 'mat' else v.f(i, ZERO)
                s.write(old.src, m.with_(f=g), st, n); return lv
        s.write(lv, v, st, n)
        return lv
    def elconv(s, a, b):
        if a == b or b == 'R' and a == 'I': return lambda x: x
        if a == 'B' and b in 'IR': return br
        if a in 'IR' and b == 'B': return lambda x: ne(x, ZERO)
        if a == 'R' and b == 'I': return trunc
        return lambda x: x
    def assign(s, lv, v, st, n=None):
        if isinstance(lv, LV) and isinstance(v, T):
            old = None
            try: old = s.read(lv, st)
            except Unsupported: pass
            if isinstance(old, Mat): return s.lib_assign(lv, v, st, n)
            if isinstance(old, T):
                if old.sort in 'IR' and v.sort == 'B': v = br(v)
        s.write(lv, v, st, n)

    # comma initialiser
    def comma_start(s, l, m, v, st, n):
        cm = Comma(l); cm.r = ZERO; cm.c = ZERO
        if isinstance(v, T):
            s.oblige('index: comma initialiser fits', and_(lt(ZERO, m.rows), lt(ZERO, m.cols)), st, n)
            s.write(l.at('el', ZERO, ZERO), v, st, n); cm.c = ONE; cm.blockrows = ONE
        else:
            s.oblige('shape: comma initialiser block fits', and_(le(v.rows, m.rows), le(v.cols, m.cols)), st, n)
            s.write(l.at('blk', ZERO, ZERO, v.rows, v.cols, 'mat'), v, st, n); cm.c = v.cols; cm.blockrows = v.rows
        return cm
    def comma_next(s, cm, v, st, n):
        m = s.read(cm.lv, st)
        r2 = Comma(cm.lv)
        if isinstance(v, T): vr = vc = ONE
        else: vr, vc = v.rows, v.cols
        nr = and_(eq(cm.c, m.cols), or_(ne(vc, ZERO), ne(vr, cm.blockrows)))
        d = st.ctx.decide(nr)
        if d is None:
            p = s.N.nfb(nr, st.ctx, 0)
            if pisconst(p): d = bool(pval(p))
        if d is None: 
            row = ite(nr, cm.r + cm.blockrows, cm.r); col = ite(nr, ZERO, cm.c); r2.blockrows = ite(nr, vr, cm.blockrows)
        elif d: row, col = cm.r + cm.blockrows, ZERO; r2.blockrows = vr
        else: row, col = cm.r, cm.c; r2.blockrows = cm.blockrows
        s.oblige('shape: comma initialiser block fits', and_(le(row + vr, m.rows), le(col + vc, m.cols)), st, n)
        if isinstance(v, T): s.write(cm.lv.at('el', row, col), v, st, n)
        else: s.write(cm.lv.at('blk', row, col, vr, vc, 'mat'), v, st, n)
        r2.r = row; r2.c = col + vc
        return r2

    # =============================================================== indexing
    def inrange(s, i, n, st, node, what='index'):
        s.oblige('%s in range' % what, and_(le(ZERO, i), lt(i, n)), st, node)
    def mat_index(s, base, v, idx, st, n):
        if isinstance(v, Mat):
            if len(idx) == 1:
                i = idx[0]
                if isinstance(i, T):
                    i = trunc(i) if i.sort == 'R' else i
                    if v.ct == 'col':
                        s.inrange(i, v.rows, st, n); a = ('el', i, ZERO)
                    elif v.ct == 'row':
                        s.inrange(i, v.cols, st, n); a = ('el', ZERO, i)
                    else:
                        s.inrange(i, v.rows * v.cols, st, n)
                        a = ('el', imod(i, v.rows), idiv(i, v.rows))
                    return LV(base.cell, base.path + (a,)) if isinstance(base, LV) else v.f(a[1], a[2])
                g, k = s.indexer(i, v.size(), st, n)
                if v.ct == 'row': return Mat(ONE, k, lambda a, b: v.f(ZERO, g(b)), v.kind, v.es, 'row')
                return Mat(k, ONE, lambda a, b: v.f(g(a), ZERO), v.kind, v.es, 'col')
            i, j = idx
            if isinstance(i, T) and isinstance(j, T):
                if v.ct == 'col' and isc(j) and cv(j) == 0: pass
                if v.ct != 'row': s.inrange(i, v.rows, st, n, 'row index')
                else: s.oblige('row index in range', eq(i, ZERO), st, n)
                if v.ct != 'col': s.inrange(j, v.cols, st, n, 'column index')
                else: s.oblige('column index in range', eq(j, ZERO), st, n)
                return LV(base.cell, base.path + (('el', i, j),)) if isinstance(base, LV) else v.f(i, j)
            if isinstance(i, T): gi, ki = (lambda a: i), ONE; s.inrange(i, v.rows, st, n, 'row index')
            else: gi, ki = s.indexer(i, v.rows, st, n)
            if isinstance(j, T): gj, kj = (lambda a: j), ONE; s.inrange(j, v.cols, st, n, 'column index')
            else: gj, kj = s.indexer(j, v.cols, st, n)
            ct = v.ct if v.ct != 'mat' else ('row' if isinstance(i, T) else 'col' if isinstance(j, T) else 'mat')
            return Mat(ki, kj, lambda a, b: v.f(gi(a), gj(b)), v.kind, v.es, ct)
        raise Unsupported('call operator on ' + type(v).__name__)
    def indexer(s, i, n, st, node):
        if isinstance(i, Opaque) and i.tag == 'all': return (lambda a: c(a)), n
        if isinstance(i, Vec):
            q = fresh('q')
            s.oblige('index list in range', Forall(i.n, lambda a: and_(le(ZERO, i.f(a)), lt(i.f(a), n))), st, node)
            return (lambda a: i.f(c(a))), i.n
        if isinstance(i, Mat):
            s.oblige('index list in range', Forall(i.size(), lambda a: and_(le(ZERO, i.lin(a)), lt(i.lin(a), n))), st, node)
            return (lambda a: i.lin(c(a))), i.size()
        raise Unsupported('indexed view')
    def index(s, base, i, st, n):
        v = s.rv(base, st)
        if isinstance(v, Vec):
            if not isinstance(i, T): raise Unsupported('vector index')
            s.inrange(i, v.n, st, n)
            return base.at('vi', i) if isinstance(base, LV) else v.f(i)
        if isinstance(v, Mat): return s.mat_index(base, v, [i], st, n)
        if isinstance(v, MapV):
            if not isinstance(base, LV): raise Unsupported('map temp')
            # operator[] inserts a default value when absent (maps read as the default outside their domain)
            old = v
            if st.ctx.decide(v.has(i)) is not True:
                s.write(base, MapV(lambda x: or_(old.has(x), eq(x, i)), old.f, old.kty, old.vty, old.ordered), st, n)
            return base.at('key', i)
        if isinstance(v, It): return s.it_deref(It(v.src, add(v.pos, i), v.kind), st, n)
        if isinstance(v, Ptr): return s.index(v.lv, i, st, n)
        raise Unsupported('subscript of ' + type(v).__name__)
    def it_deref(s, v, st, n):
        src = v.src
        sv = s.rv(src, st) if isinstance(src, LV) else src
        if isinstance(sv, Vec):
            s.inrange(v.pos, sv.n, st, n, 'iterator')
            return src.at('vi', v.pos) if isinstance(src, LV) else sv.f(v.pos)
        if isinstance(sv, Mat):
            s.inrange(v.pos, sv.size(), st, n, 'iterator')
            if sv.ct == 'col': a = ('el', v.pos, ZERO)
            elif sv.ct == 'row': a = ('el', ZERO, v.pos)
            else: a = ('el', imod(v.pos, sv.rows), idiv(v.pos, sv.rows))
            return LV(src.cell, src.path + (a,)) if isinstance(src, LV) else sv.f(a[1], a[2])
        if isinstance(sv, VWise):
            m = s.rv(sv.src, st) if isinstance(sv.src, LV) else sv.src
            a = ('blk', v.pos, ZERO, ONE, m.cols, 'row') if sv.axis == 'row' else ('blk', ZERO, v.pos, m.rows, ONE, 'col')
            s.inrange(v.pos, m.rows if sv.axis == 'row' else m.cols, st, n, 'iterator')
            return LV(sv.src.cell, sv.src.path + (a,)) if isinstance(sv.src, LV) else s.get1(m, a, st)
        if isinstance(sv, MapV):
            ks = sv.kty[0]
            key = Enum(sv.has, v.pos, ks) if v.kind != 'key' else v.pos
            return s.map_pair(src, sv, key)
        if isinstance(sv, SetV):
            return Enum(sv.has, v.pos, sv.kty[0]) if v.kind != 'key' else v.pos
        raise Unsupported('iterator over ' + type(sv).__name__)
    def map_pair(s, src, sv, key):
        if isinstance(src, LV): return Tup([key, src.at('key', key)])
        return Tup([key, sv.f(key)])
    def get1(s, v, acc, st):
        if acc[0] == 'pidx':
            if not isinstance(v, Decomp) or v.kind != 'perm': raise Unsupported('indices of %s' % type(v).__name__)
            return v.m
        return super().get1(v, acc, st)
    def set1(s, v, path, new, st):
        if path and path[0][0] == 'pidx': return Decomp('perm', super().set1(v.m, path[1:], new, st))
        return super().set1(v, path, new, st)
    def e_MemberExpr(s, n, st):
        b = s.ev(n.inner[0], st)
        if n.get('isArrow'):
            p = s.rv(b, st)
            if isinstance(p, (Ptr, It)): b = s.deref(p, st, n)
            else: b = p
        nm = n.name
        if isinstance(b, LV):
            cv_ = st.store.get(b.cell)
            if isinstance(cv_, Tup) and not b.path and nm in ('first', 'second'):
                x = cv_.xs[0 if nm == 'first' else 1]
                if isinstance(x, LV): return x
            return b.at('f', nm)
        if isinstance(b, (Obj, Tup)): return s.get1(b, ('f', nm), st)
        raise Unsupported('member %s of %s %s' % (nm, type(b).__name__, getattr(b, 'tag', '')))

    # =============================================================== library methods
    def libmethod(s, name, base, v, args, n, st, callee):
        s.libs.add(type(v).__name__ + '::' + name)
        if isinstance(v, Mat): return s.mat_method(name, base, v, args, n, st, callee)
        if isinstance(v, VWise): return s.vwise_method(name, base, v, args, n, st, callee)
        if isinstance(v, Vec): return s.vec_method(name, base, v, args, n, st)
        if isinstance(v, MapV): return s.map_method(name, base, v, args, n, st)
        if isinstance(v, SetV): return s.set_method(name, base, v, args, n, st)
        if isinstance(v, Ptr):
            if name == 'get': return v
            if name == 'reset': s.write(base, Ptr(None, True), st, n); return Opaque('void')
            if name == 'operator bool': return c(v.lv is not None)
        if is_stream(v):
            if name in ('operator bool', 'is_open'): return v.f['ok'] if name != 'is_open' else TRUE
            if name == 'close': return Opaque('void')
        if isinstance(v, Comma) and name == 'finished': return v.lv
        if isinstance(v, Decomp): return s.decomp_method(name, base, v, args, n, st)
        if isinstance(v, T):
            if name in ('size', 'length') and v.sort == 'U': return fn('strlen', v, sort='I')
            if name == 'empty' and v.sort == 'U': return eq(v, c(''))
            if name.startswith('operator '): return v
        if isinstance(v, Opaque):
            if v.tag in ('stale', 'merge', 'dead'): raise Unsupported('use of %s value' % v.tag)
            return s.opaque_method(name, base, v, args, n, st)
        raise Unsupported('method %s of %s' % (name, type(v).__name__))
    def opaque_method(s, name, base, v, args, n, st):
        if name in ('str', 'c_str', 'what'): return s.sk('str', n, 'U')
        if v.tag == 'clock' and name == 'time_since_epoch': return v
        if v.tag == 'clock' and name == 'count': return s.sk('seed', n, 'I')
        raise Unsupported('method %s of %s' % (name, v.tag))
    draws = []
    def opaque_call(s, v, args, n, st):
        if isinstance(v, Dist):
            x = s.sk('draw', n, 'I' if v.integer else 'R')
            st.assume(v.bounds(x)); s.draws = s.draws + [(x, v)]
            return x
        raise Unsupported('call of opaque ' + str(v.tag))
    def ints(s, args, st): return [s.scalar_of(s.val(a, st), st) for a in args if not s.isdef(a)]
    def isdef(s, a): return a.kind == 'CXXDefaultArgExpr'
    def view(s, base, v, acc, st):
        if isinstance(base, LV): return LV(base.cell, base.path + (acc,))
        return s.get1(v, acc, st)

    def mat_method(s, name, base, v, args, n, st, callee):
        R, C = v.rows, v.cols
        if name == 'rows': return R
        if name == 'cols': return C
        if name == 'size': return v.size()
        if name == 'innerSize' : return R if v.ct != 'row' else C
        if name == 'outerSize' : return C if v.ct != 'row' else ONE
        if name in ('transpose', 'adjoint'): return s.view(base, v, ('T',), st)
        if name == 'transposeInPlace':
            s.write(base, v.T().with_(ct=v.ct), st, n); return base
        if name == 'array': return s.view(base, v, ('kind', 'A'), st)
        if name == 'matrix': return s.view(base, v, ('kind', 'M'), st)
        if name in ('eval', 'toDenseMatrix', 'derived', 'const_cast_derived', 'finished', 'real', 'conjugate', 'nestedExpression'): return v
        if name in ('noalias',): return s.view(base, v, ('noalias',), st)
        if name == 'row':
            i, = s.ints(args, st); s.inrange(i, R, st, n, 'row index')
            return s.view(base, v, ('blk', i, ZERO, ONE, C, 'row'), st)
        if name == 'col':
            j, = s.ints(args, st); s.inrange(j, C, st, n, 'column index')
            return s.view(base, v, ('blk', ZERO, j, R, ONE, 'col'), st)
        if name == 'block':
            r0, c0, nr, nc = s.ints(args, st)
            s.oblige('index: block inside the matrix', and_(le(ZERO, r0), le(ZERO, c0), le(ZERO, nr), le(ZERO, nc), le(r0 + nr, R), le(c0 + nc, C)), st, n)
            return s.view(base, v, ('blk', r0, c0, nr, nc, 'mat'), st)
        if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            nr, nc = s.ints(args, st)
            r0 = R - nr if name.startswith('bottom') else ZERO; c0 = C - nc if 'Right' in name else ZERO
            s.oblige('index: corner inside the matrix', and_(le(ZERO, nr), le(ZERO, nc), le(nr, R), le(nc, C)), st, n)
            return s.view(base, v, ('blk', r0, c0, nr, nc, 'mat'), st)
        if name in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols'):
            a = s.ints(args, st)
            r0, c0, nr, nc = ZERO, ZERO, R, C
            if name == 'topRows': nr = a[0]
            if name == 'bottomRows': r0, nr = R - a[0], a[0]
            if name == 'leftCols': nc = a[0]
            if name == 'rightCols': c0, nc = C - a[0], a[0]
            if name == 'middleRows': r0, nr = a
            if name == 'middleCols': c0, nc = a
            s.oblige('index: block inside the matrix', and_(le(ZERO, r0), le(ZERO, c0), le(ZERO, nr), le(ZERO, nc), le(r0 + nr, R), le(c0 + nc, C)), st, n)
            return s.view(base, v, ('blk', r0, c0, nr, nc, v.ct if v.ct != 'mat' else 'mat'), st)
        if name in ('head', 'tail', 'segment'):
            a = s.ints(args, st); N = v.size()
            if name == 'head': o, k = ZERO, a[0]
            elif name == 'tail': o, k = N - a[0], a[0]
            else: o, k = a
            s.oblige('index: segment inside the vector', and_(le(ZERO, o), le(ZERO, k), le(o + k, N)), st, n)
            if v.ct == 'row': return s.view(base, v, ('blk', ZERO, o, ONE, k, 'row'), st)
            return s.view(base, v, ('blk', o, ZERO, k, ONE, 'col'), st)
        if name == 'diagonal': return s.view(base, v, ('diag',), st)
        if name == 'asDiagonal':
            N = v.size()
            return Mat(N, N, lambda i, j: ite(eq(i, j), v.lin(i), ZERO), 'M', v.es, 'mat')
        if name == 'rowwise': return VWise(base if isinstance(base, LV) else v, 'row')
        if name == 'colwise': return VWise(base if isinstance(base, LV) else v, 'col')
        if name in ('coeff', 'coeffRef'): return s.mat_index(base, v, s.ints(args, st), st, n)
        if name == 'value':
            s.oblige('shape: 1x1', and_(eq(R, ONE), eq(C, ONE)), st, n); return v.f(ZERO, ZERO)
        if name.startswith('operator '): return s.scalar_of(v, st)
        if name in ('sum', 'mean', 'prod', 'squaredNorm', 'norm', 'lpNorm', 'maxCoeff', 'minCoeff', 'all', 'any', 'count', 'stableNorm'):
            return s.reduce(name, v, args, n, st, callee)
        if name == 'dot':
            b = s.val(args[0], st)
            s.oblige('shape: dot product operands have equal length', eq(v.size(), b.size()), st, n)
            return Sum(v.size(), lambda k: v.lin(k) * b.lin(k))
        if name == 'trace': return Sum(R, lambda k: v.f(k, k))
        if name == 'inverse' and v.kind == 'M': return s.ma.inverse(v, st, n)
        if name in UNARY:
            g = UNARY[name]
            return v.map(g, 'R' if name in ('exp', 'log', 'sqrt', 'inverse', 'log2', 'log10', 'tanh') else v.es)
        if name in ('cwiseAbs', 'cwiseAbs2', 'cwiseSqrt', 'cwiseInverse', 'cwiseSign'):
            return v.map(UNARY[name[5:].lower()])
        if name == 'pow':
            e = s.val(args[0], st)
            if isinstance(e, Mat): 
                s.samesize(v, e, st, n)
                return Mat(R, C, lambda i, j: pow_(v.f(i, j), e.f(i, j)), v.kind, 'R', v.ct)
            return v.map(lambda x: pow_(x, e), 'R')
        if name in ('max', 'min', 'cwiseMax', 'cwiseMin'):
            e = s.val(args[0], st)
            g = max2 if name.lower().endswith('max') else min2
            if isinstance(e, Mat):
                s.samesize(v, e, st, n)
                return Mat(R, C, lambda i, j: g(v.f(i, j), e.f(i, j)), v.kind, v.es, v.ct)
            return v.map(lambda x: g(x, e))
        if name in ('cwiseProduct', 'cwiseQuotient', 'cwiseEqual', 'cwiseNotEqual'):
            e = s.val(args[0], st)
            op = {'cwiseProduct': '*', 'cwiseQuotient': '/', 'cwiseEqual': '==', 'cwiseNotEqual': '!='}[name]
            if isinstance(e, Mat): 
                return s.binop(op, v.with_(kind='A'), e.with_(kind='A'), st, n).with_(kind=v.kind)
            return s.binop(op, v, e, st, n)
        if name == 'select':
            a = s.val(args[0], st); b = s.val(args[1], st)
            for x in (a, b):
                if isinstance(x, Mat): s.samesize(v, x, st, n, 'select')
            ga = (lambda i, j: a.f(i, j)) if isinstance(a, Mat) else (lambda i, j: a)
            gb = (lambda i, j: b.f(i, j)) if isinstance(b, Mat) else (lambda i, j: b)
            es = [x.es if isinstance(x, Mat) else x.sort for x in (a, b)]
            k = a if isinstance(a, Mat) else b if isinstance(b, Mat) else v
            return Mat(R, C, lambda i, j: ite(v.f(i, j), ga(i, j), gb(i, j)), k.kind, 'R' if 'R' in es else es[0], v.ct)
        if name == 'cast':
            if 'scalar_cast_op' not in n.ctype: return v     # a cast to the scalar type the expression already has
            ty = s.elem_of_type(n.ctype)
            conv = s.elconv(v.es, ty)
            return v.map(conv, ty)
        if name == 'replicate':
            a = s.ints(args, st)
            return s.replicate(v, a[0], a[1])
        if name == 'reverse':
            return Mat(R, C, lambda i, j: v.f(R - ONE - i if v.ct != 'row' else i, C - ONE - j if v.ct != 'col' else j), v.kind, v.es, v.ct)
        if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'setLinSpaced'):
            a = s.ints(args, st)
            r, cc = R, C
            val = ZERO
            if name == 'setOnes': val = ONE
            if name in ('fill', 'setConstant'): val = a[-1]; a = a[:-1]
            if name == 'setLinSpaced': raise Unsupported('setLinSpaced')
            if len(a) == 1: r, cc = (a[0], ONE) if v.ct == 'col' else (ONE, a[0])
            if len(a) == 2: r, cc = a
            f = (lambda i, j: ite(eq(i, j), ONE, ZERO)) if name == 'setIdentity' else (lambda i, j: val)
            new = Mat(r, cc, f, v.kind, v.es, v.ct)
            s.write_view(base, new, st, n); return base
        if name in ('resize', 'conservativeResize'):
            a = [s.val(x, st) for x in args]
            if len(a) == 1:
                r, cc = (a[0], ONE) if v.ct == 'col' else (ONE, a[0])
            else:
                r = a[0] if isinstance(a[0], T) else R
                cc = a[1] if isinstance(a[1], T) else C
            s.oblige('shape: resize to non-negative size', and_(le(ZERO, r), le(ZERO, cc)), st, n)
            s.chk_dims(v, r, cc, st, n)
            un = s.uninit_mat(r, cc, ('mat', v.es, v.ct, v.kind, (None, None), None), n)
            if name == 'conservativeResize':
                f = lambda i, j: ite(and_(lt(i, R), lt(j, C)), v.f(i, j), un.f(i, j))
            else:
                same = and_(eq(r, R), eq(cc, C))
                f = lambda i, j: ite(same, v.f(i, j), un.f(i, j))
            s.write(base, Mat(r, cc, f, v.kind, v.es, v.ct), st, n)
            return base
        if name in ('data', 'begin', 'cbegin'): return It(base if isinstance(base, LV) else v, ZERO, 'mat')
        if name in ('end', 'cend'): return It(base if isinstance(base, LV) else v, v.size(), 'mat')
        if name == 'isApprox': return s.sk('isapprox', n, 'B')
        if name in ('isZero',): raise Unsupported(name)
        if name == 'swap': raise Unsupported('swap')
        if name == 'unaryExpr':
            lam = s.val(args[0], st)
            def f(i, j):
                st2 = st.copy()
                r = s.call_lambda(lam, [v.f(i, j)], st2, n)
                return s.rv(r, st2)
            es = f(ZERO, ZERO).sort
            return Mat(R, C, f, v.kind, es, v.ct)
        if name in ('determinant', 'inverse', 'llt', 'ldlt', 'lu', 'partialPivLu', 'fullPivLu', 'householderQr', 'colPivHouseholderQr', 'jacobiSvd', 'bdcSvd',
                    'completeOrthogonalDecomposition', 'triangularView', 'selfadjointView', 'solve'):
            return s.linalg(name, base, v, args, n, st, callee)
        raise Unsupported('Eigen method ' + name)
    def chk_dims(s, v, r, cc, st, n): pass
    def write_view(s, base, new, st, n):
        if not isinstance(base, LV): raise Unsupported('write to temporary')
        s.write(base, new, st, n)
    def elem_of_type(s, t):
        """scalar sort of an Eigen expression type with a cast"""
        t = t.replace(' ', '')
        i = t.find('scalar_cast_op<')
        if i >= 0:
            inner = t[i + len('scalar_cast_op<'):]
            d = 0; parts = ['']
            for ch in inner:
                if ch == '<': d += 1
                if ch == '>':
                    if d == 0: break
                    d -= 1
                if ch == ',' and d == 0: parts.append(''); continue
                parts[-1] += ch
            k = classify(parts[1] if len(parts) > 1 else parts[0])[0]
            if k in 'IRB': return k
        raise Unsupported('cast type ' + t[:80])
    def replicate(s, v, a, b):
        def f(i, j):
            i = c(i); j = c(j)
            ii = ZERO if isc(v.rows) and cv(v.rows) == 1 else (i if isc(a) and cv(a) == 1 else imod(i, v.rows))
            jj = ZERO if isc(v.cols) and cv(v.cols) == 1 else (j if isc(b) and cv(b) == 1 else imod(j, v.cols))
            return v.f(ii, jj)
        ct = 'mat'
        if v.ct == 'col' and isc(b) and cv(b) == 1: ct = 'mat'
        return Mat(v.rows * a, v.cols * b, f, v.kind, v.es, ct)
    def lp_order(s, callee, n):
        txt = s.u.text(callee)
        import re
        m = re.search(r'lpNorm\s*<\s*([^>]*)>', txt or '')
        if not m: raise Unsupported('lpNorm order')
        p = m.group(1).strip()
        if 'Infinity' in p: return 'inf'
        return int(p)
    def reduce(s, name, v, args, n, st, callee, ):
        R, C = v.rows, v.cols
        nb = lambda x: br(x) if x.sort == 'B' else x
        def fold(B, g):
            if v.ct == 'col': return B(R, lambda i: g(v.f(i, ZERO)))
            if v.ct == 'row': return B(C, lambda j: g(v.f(ZERO, j)))
            return B(R, lambda i: B(C, lambda j: g(v.f(i, j))))
        if name == 'sum': return fold(Sum, nb)
        if name == 'prod': return fold(Prod, nb)
        if name == 'mean': return div(fold(Sum, nb), v.size())
        if name == 'squaredNorm': return fold(Sum, lambda x: x * x)
        if name in ('norm', 'stableNorm'): return sqrt(fold(Sum, lambda x: x * x))
        if name == 'lpNorm':
            p = s.lp_order(callee, n)
            if p == 2: return sqrt(fold(Sum, lambda x: x * x))
            if p == 1: return fold(Sum, abs_)
            if p == 'inf':
                return ite(lt(ZERO, v.size()), fold(Max, abs_), ZERO)
            raise Unsupported('lpNorm<%s>' % p)
        if name == 'all': return not_(fold(Exists, lambda x: not_(s.tobool(x))))
        if name == 'any': return fold(Exists, lambda x: s.tobool(x))
        if name == 'count': return fold(Sum, lambda x: br(s.tobool(x)))
        if name in ('maxCoeff', 'minCoeff'):
            s.oblige('non-empty operand of ' + name, and_(lt(ZERO, R), lt(ZERO, C)), st, n)
            B = Max if name == 'maxCoeff' else Min; A = ArgMax if name == 'maxCoeff' else ArgMin
            ptrs = [s.val(a, st) for a in args if not s.isdef(a)]
            ptrs = [p for p in ptrs if isinstance(p, Ptr)]
            if len(ptrs) == 1:
                if v.ct == 'mat':
                    s.oblige('shape: index form of ' + name + ' needs a vector', or_(eq(R, ONE), eq(C, ONE)), st, n)
                k = A(v.size(), lambda q: v.lin(q))
                s.write(ptrs[0].lv, k, st, n)
            elif len(ptrs) == 2:
                # column-major visitor: first maximal column-wise
                jj = A(C, lambda j: B(R, lambda i: v.f(i, j)))
                ii = A(R, lambda i: v.f(i, jj))
                s.write(ptrs[0].lv, ii, st, n); s.write(ptrs[1].lv, jj, st, n)
            return fold(B, lambda x: x)
        raise Unsupported(name)
    def vwise_method(s, name, base, v, args, n, st, callee):
        src = v.src
        m = s.rv(src, st) if isinstance(src, LV) else src
        R, C = m.rows, m.cols
        if name == 'replicate':
            a, = s.ints(args, st)
            r = s.replicate(m, a, ONE) if v.axis == 'col' else s.replicate(m, ONE, a)
            return r
        if name in ('begin', 'cbegin'): return It(v, ZERO, 'vw')
        if name in ('end', 'cend'): return It(v, C if v.axis == 'col' else R, 'vw')
        if name in ('sum', 'mean', 'prod', 'squaredNorm', 'norm', 'lpNorm', 'maxCoeff', 'minCoeff', 'all', 'any', 'count'):
            if name in ('maxCoeff', 'minCoeff'):
                s.oblige('non-empty operand of ' + name, lt(ZERO, R if v.axis == 'col' else C), st, n)
            if any(not s.isdef(a) for a in args): raise Unsupported('index output of vectorwise ' + name)
            if v.axis == 'col':
                g = lambda i, j: s.reduce_pure(name, Mat(R, ONE, lambda a, b: m.f(a, j), 'M', m.es, 'col'), n, callee)
                r = Mat(ONE, C, g, m.kind, 'R' if name in ('mean', 'norm', 'lpNorm') else 'B' if name in ('all', 'any') else m.es, 'row')
            else:
                g = lambda i, j: s.reduce_pure(name, Mat(R, ONE, lambda a, b: m.f(i, a), 'M', m.es, 'col').with_(rows=C), n, callee)
                r = Mat(R, ONE, g, m.kind, 'R' if name in ('mean', 'norm', 'lpNorm') else 'B' if name in ('all', 'any') else m.es, 'col')
            return r
        if name in ('array', 'matrix'): return v
        if name == 'normalized':
            if v.axis == 'col': return m.with_(f=lambda i, j: div(m.f(i, j), sqrt(Sum(R, lambda a: m.f(a, j) ** 2))))
            return m.with_(f=lambda i, j: div(m.f(i, j), sqrt(Sum(C, lambda a: m.f(i, a) ** 2))))
        if name == 'reverse':
            return m.with_(f=(lambda i, j: m.f(R - ONE - i, j)) if v.axis == 'col' else (lambda i, j: m.f(i, C - ONE - j)))
        raise Unsupported('vectorwise ' + name)
    def reduce_pure(s, name, v, n, callee):
        c0 = s.collect; s.collect = False
        try: return s.reduce(name, v, [], n, State({}, ROOT), callee)
        finally: s.collect = c0

    # decompositions: filled by linalg contracts (subclass / hooks)
    def linalg(s, name, base, v, args, n, st, callee):
        if name == 'inverse': return s.ma.inverse(v, st, n)
        return s.ma.linalg(s, name, base, v, args, n, st)
    def decomp_method(s, name, base, v, args, n, st):
        if v.kind == 'perm':
            if name == 'setIdentity':
                N = v.m.rows
                s.write(base, Decomp('perm', Mat(N, ONE, lambda i, j: c(i), 'M', 'I', 'col')), st, n); return base
            if name == 'indices': 
                return LV(base.cell, base.path + (('pidx',),))
            if name in ('rows', 'cols', 'size'): return v.m.rows
            if name == 'toDenseMatrix': return s.perm_mat(v)
            if name == 'determinant' and 'sign' in v.extra: return v.extra['sign']
            if name in ('transpose', 'inverse'): return s.perm_mat(v).T()
            if name == 'eval': return s.perm_mat(v)
            raise Unsupported('permutation ' + name)
        return s.ma.method(s, name, base, v, args, n, st)
    def perm_mat(s, p):
        ix = p.m
        return Mat(ix.rows, ix.rows, lambda i, j: ite(eq(i, ix.f(j, ZERO)), ONE, ZERO), 'M', 'I', 'mat')
    def perm_left(s, p, m, st, n):
        ix = p.m
        s.oblige('shape: permutation fits the matrix', eq(ix.rows, m.rows), st, n)
        inv_ = s.perm_inverse(ix)
        return Mat(m.rows, m.cols, lambda i, j: m.f(inv_(i), j), 'M', m.es, m.ct, nc=lambda A: A.mul(A.nc(s.perm_mat(p)), A.nc(m)))
    def perm_right(s, m, p, st, n):
        ix = p.m
        s.oblige('shape: permutation fits the matrix', eq(ix.rows, m.cols), st, n)
        return Mat(m.rows, m.cols, lambda i, j: m.f(i, ix.f(j, ZERO)), 'M', m.es, m.ct, nc=lambda A: A.mul(A.nc(m), A.nc(s.perm_mat(p))))
    def perm_inverse(s, ix):
        x = ix.f(var('%perm'), ZERO)
        if x is var('%perm'): return lambda i: c(i)
        if x.op == 'app' and x.args[0].startswith('perm!'):
            nm = x.args[0].replace('perm!', 'pinv!')
            return lambda i: app(nm, x.args[1:-1] + (i,), 'I')
        return lambda i: Nth(lambda k: eq(ix.f(k, ZERO), c(i)), ZERO)

    # =============================================================== std containers
    def vec_method(s, name, base, v, args, n, st):
        if name in ('size', 'length'): return v.n
        if name == 'empty': return eq(v.n, ZERO)
        if name in ('begin', 'cbegin', 'data'): return It(base if isinstance(base, LV) else v, ZERO, 'vec')
        if name in ('end', 'cend'): return It(base if isinstance(base, LV) else v, v.n, 'vec')
        if name in ('push_back', 'emplace_back'):
            a = [s.val(x, st) for x in args]
            x = s.construct_elem(v.ety, a, st, n)
            k = v.n
            s.write(base, Vec(k + ONE, lambda i: merge(eq(c(i), k), x, v.f(i)), v.ety), st, n)
            return LV(base.cell, base.path + (('vi', k),))
        if name in ('reserve', 'shrink_to_fit'):
            for a in args: s.val(a, st)
            return Opaque('void')
        if name == 'clear': s.write(base, Vec(ZERO, v.f, v.ety), st, n); return Opaque('void')
        if name == 'resize':
            a = [s.val(x, st) for x in args if not s.isdef(x)]
            d = a[1] if len(a) > 1 else default_value(v.ety, s)
            s.write(base, Vec(a[0], lambda i: merge(lt(c(i), v.n), v.f(i), d), v.ety), st, n); return Opaque('void')
        if name == 'pop_back':
            s.oblige('pop_back of a non-empty vector', lt(ZERO, v.n), st, n)
            s.write(base, Vec(v.n - ONE, v.f, v.ety), st, n); return Opaque('void')
        if name == 'at':
            i, = s.ints(args, st); s.inrange(i, v.n, st, n)
            return base.at('vi', i) if isinstance(base, LV) else v.f(i)
        if name in ('back', 'front'):
            s.oblige('%s of a non-empty vector' % name, lt(ZERO, v.n), st, n)
            i = ZERO if name == 'front' else v.n - ONE
            return base.at('vi', i) if isinstance(base, LV) else v.f(i)
        if name == 'insert':
            a = [s.val(x, st) for x in args]
            if len(a) == 3 and isinstance(a[1], It) and isinstance(a[2], It):
                src = s.rv(a[1].src, st) if isinstance(a[1].src, LV) else a[1].src
                g = s.seq_at(src); lo, hi = a[1].pos, a[2].pos; k = hi - lo; p = a[0].pos
                s.oblige('iterator range valid', and_(le(ZERO, lo), le(lo, hi), le(hi, s.seq_len(src))), st, n)
                old = v
                s.write(base, Vec(old.n + k, lambda i: merge(lt(c(i), p), old.f(i), merge(lt(c(i), p + k), g(c(i) - p + lo), old.f(c(i) - k))), v.ety), st, n)
                return It(base, p, 'vec')
            if len(a) == 2:
                p = a[0].pos; x = a[1]; old = v
                s.write(base, Vec(old.n + ONE, lambda i: merge(lt(c(i), p), old.f(i), merge(eq(c(i), p), x, old.f(c(i) - ONE))), v.ety), st, n)
                return It(base, p, 'vec')
        if name == 'erase':
            a = [s.val(x, st) for x in args]
            lo = a[0].pos; hi = a[1].pos if len(a) > 1 else lo + ONE
            old = v; k = hi - lo
            s.oblige('erase range valid', and_(le(ZERO, lo), le(lo, hi), le(hi, old.n)), st, n)
            s.write(base, Vec(old.n - k, lambda i: merge(lt(c(i), lo), old.f(i), old.f(c(i) + k)), v.ety), st, n)
            return It(base, lo, 'vec')
        if name == 'assign':
            a = [s.val(x, st) for x in args]
            if isinstance(a[0], T): 
                s.write(base, Vec(a[0], lambda i: a[1], v.ety), st, n); return Opaque('void')
        raise Unsupported('vector::' + name)
    def construct_elem(s, ety, a, st, n):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, tuple) and x and x[0] == 'initlist': return s.from_initlist(default_value(ety, s), x[1], st)
            if ety[0] == 'I' and isinstance(x, T) and x.sort == 'R': return trunc(x)
            return x
        if ety[0] == 'tup': return Tup(a)
        if ety[0] == 'vec' and len(a) == 2 and isinstance(a[0], It): return s.range_vec(a[0], a[1], ety[1], st, n)
        if not a: return default_value(ety, s)
        raise Unsupported('emplace with %d arguments' % len(a))
    def seq_len(s, x):
        if isinstance(x, Vec): return x.n
        if isinstance(x, Mat): return x.size()
        if isinstance(x, SetV): return Card(x.has, x.kty[0])
        if isinstance(x, MapV): return Card(x.has, x.kty[0])
        raise Unsupported('sequence ' + type(x).__name__)
    def seq_at(s, x):
        if isinstance(x, Vec): return x.f
        if isinstance(x, Mat): return x.lin
        if isinstance(x, SetV): return lambda i: Enum(x.has, c(i), x.kty[0])
        if isinstance(x, MapV):
            def g(i):
                k = Enum(x.has, c(i), x.kty[0])
                return Tup([k, x.f(k)])
            return g
        raise Unsupported('sequence ' + type(x).__name__)
    def range_vec(s, a, b, ety, st, n):
        src = s.rv(a.src, st) if isinstance(a.src, LV) else a.src
        g = s.seq_at(src); lo, hi = a.pos, b.pos
        s.oblige('iterator range valid', and_(le(ZERO, lo), le(lo, hi), le(hi, s.seq_len(src))), st, n)
        return Vec(hi - lo, lambda i: g(add(c(i), lo)), ety)
    def from_initlist(s, proto, xs, st):
        if isinstance(proto, Vec):
            r = Vec(ZERO, proto.f, proto.ety)
            for k, x in enumerate(xs):
                old = r; x2 = s.from_initlist(default_value(proto.ety, s), x[1], st) if isinstance(x, tuple) else x
                r = Vec(c(k + 1), (lambda i, old=old, x2=x2, k=k: merge(eq(c(i), c(k)), x2, old.f(i)) if old.n is not ZERO else x2), proto.ety)
            return r
        if isinstance(proto, SetV):
            return SetV(lambda q: or_(*[eq(q, x) for x in xs]), proto.kty, proto.ordered)
        if isinstance(proto, MapV):
            r = proto
            for x in xs:
                old = r
                r = MapV(lambda q, x=x, old=old: or_(old.has(q), eq(q, x.xs[0])), lambda q, x=x, old=old: merge(and_(eq(q, x.xs[0]), not_(old.has(q))), x.xs[1], old.f(q)), old.kty, old.vty, old.ordered)
            return r
        if isinstance(proto, Tup): return Tup(xs)
        if isinstance(proto, T) and len(xs) == 1: return xs[0]
        if isinstance(proto, Mat):
            return Mat(c(len(xs)), ONE, lambda i, j: s.pick(c(i), xs), proto.kind, proto.es, 'col')
        raise Unsupported('initializer list')
    def pick(s, i, xs):
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1): r = ite(eq(i, c(k)), xs[k], r)
        return r
    def map_method(s, name, base, v, args, n, st):
        ks = v.kty[0]
        if name == 'size': return Card(v.has, ks)
        if name == 'empty': return eq(Card(v.has, ks), ZERO)
        if name in ('begin', 'cbegin'): return It(base if isinstance(base, LV) else v, ZERO, 'map')
        if name in ('end', 'cend'): return It(base if isinstance(base, LV) else v, Card(v.has, ks), 'map')
        if name == 'count': return br(v.has(s.val(args[0], st)))
        if name == 'clear': s.write(base, MapV(lambda q: FALSE, lambda q: default_value(v.vty, s), v.kty, v.vty, v.ordered), st, n); return Opaque('void')
        if name == 'at':
            k = s.val(args[0], st)
            s.oblige('map::at key present', v.has(k), st, n)
            return base.at('key', k) if isinstance(base, LV) else v.f(k)
        if name == 'find':
            k = s.val(args[0], st)
            return FindRes(base if isinstance(base, LV) else v, k, v.has(k))
        if name in ('insert', 'emplace'):
            a = [s.val(x, st) for x in args]
            if len(a) == 1 and isinstance(a[0], Tup): k, x = a[0].xs
            elif len(a) == 2: k, x = a
            else: raise Unsupported('map insert')
            old = v
            s.write(base, MapV(lambda q: or_(old.has(q), eq(q, k)), lambda q: merge(and_(eq(q, k), not_(old.has(q))), x, old.f(q)), v.kty, v.vty, v.ordered), st, n)
            return Tup([FindRes(base, k, TRUE), not_(old.has(k))])
        if name == 'erase':
            k = s.val(args[0], st)
            if isinstance(k, T):
                s.write(base, MapV(lambda q: and_(v.has(q), ne(q, k)), lambda q: merge(eq(q, k), default_value(v.vty, s), v.f(q)), v.kty, v.vty, v.ordered), st, n)
                return br(v.has(k))
        raise Unsupported('map::' + name)
    def set_method(s, name, base, v, args, n, st):
        ks = v.kty[0]
        if name == 'size': return Card(v.has, ks)
        if name == 'empty': return eq(Card(v.has, ks), ZERO)
        if name in ('begin', 'cbegin'): return It(base if isinstance(base, LV) else v, ZERO, 'set')
        if name in ('end', 'cend'): return It(base if isinstance(base, LV) else v, Card(v.has, ks), 'set')
        if name == 'count': return br(v.has(s.val(args[0], st)))
        if name == 'clear': s.write(base, SetV(lambda q: FALSE, v.kty, v.ordered), st, n); return Opaque('void')
        if name == 'find':
            k = s.val(args[0], st)
            return FindRes(base if isinstance(base, LV) else v, k, v.has(k))
        if name in ('insert', 'emplace'):
            a = [s.val(x, st) for x in args]
            if len(a) == 1:
                k = a[0]
                s.write(base, SetV(lambda q: or_(v.has(q), eq(q, k)), v.kty, v.ordered), st, n)
                return Tup([FindRes(base, k, TRUE), not_(v.has(k))])
            if len(a) == 2 and isinstance(a[0], It):
                src = s.rv(a[0].src, st) if isinstance(a[0].src, LV) else a[0].src
                g = s.seq_at(src)
                s.write(base, SetV(lambda q: or_(v.has(q), Exists(a[1].pos - a[0].pos, lambda k: eq(g(add(k, a[0].pos)), q))), v.kty, v.ordered), st, n)
                return Opaque('void')
        if name == 'erase':
            k = s.val(args[0], st)
            if isinstance(k, T):
                s.write(base, SetV(lambda q: and_(v.has(q), ne(q, k)), v.kty, v.ordered), st, n)
                return br(v.has(k))
        raise Unsupported('set::' + name)
    def compare(s, op, a, b, st):
        if isinstance(a, FindRes) or isinstance(b, FindRes):
            f, o = (a, b) if isinstance(a, FindRes) else (b, a)
            if isinstance(o, It):      # compared with end()
                return not_(f.found) if op == '==' else f.found
        return super().compare(op, a, b, st)
    def deref(s, v, st, n=None):
        if isinstance(v, FindRes):
            s.oblige('dereferenced iterator is valid', v.found, st, n)
            sv = s.rv(v.src, st) if isinstance(v.src, LV) else v.src
            if isinstance(sv, MapV): return s.map_pair(v.src, sv, v.key)
            if isinstance(sv, Vec) or isinstance(sv, Mat): return s.it_deref(It(v.src, v.key, 'vec'), st, n)
            return v.key
        return super().deref(v, st, n)

    # =============================================================== constructors
    def e_CXXConstructExpr(s, n, st):
        t = n.ctype
        args = [a for a in n.inner if a is not None]
        return s.construct_any(t, n, args, st)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def construct_any(s, t, n, args, st):
        ty = classify(t)
        k = ty[0]
        if k == 'cls':
            b = split_targs(strip(t))[0].split('::')[-1]
            if s.find_class(t) is None:
                return s.construct_lib(b, t, n, args, st)
            if len(args) == 1:
                v = s.val(args[0], st)
                if isinstance(v, Obj): return v
                return s.construct(t, (n.get('ctorType') or {}).get('qualType'), [s.ev(args[0], st)] if unwrap(args[0]).kind == 'DeclRefExpr' else [v], st, n)
            return s.construct(t, (n.get('ctorType') or {}).get('qualType'), [s.ev(a, st) for a in args], st, n)
        if k in 'IRB' or k == 'U':
            if not args: return default_value(ty, s)
            v = s.val(args[0], st)
            if k == 'U' and len([a for a in args if not s.isdef(a)]) > 1: raise Unsupported('string constructor')
            return v
        if k == 'mat': return s.construct_mat(ty, t, n, args, st)
        vals = [s.val(a, st) for a in args if not s.isdef(a)]
        if k == 'vec':
            if not vals: return default_value(ty, s)
            x = vals[0]
            if isinstance(x, tuple): return s.from_initlist(default_value(ty, s), x[1], st)
            if isinstance(x, Vec): return x
            if isinstance(x, It) and len(vals) > 1: return s.range_vec(x, vals[1], ty[1], st, n)
            if isinstance(x, FindRes): raise Unsupported('vector from find')
            if isinstance(x, T):
                d = vals[1] if len(vals) > 1 and not isinstance(vals[1], Opaque) else default_value(ty[1], s)
                s.oblige('vector size non-negative', le(ZERO, x), st, n)
                return Vec(x, lambda i: d, ty[1])
        if k == 'set':
            if not vals: return default_value(ty, s)
            if isinstance(vals[0], SetV): return vals[0]
            if isinstance(vals[0], tuple): return s.from_initlist(default_value(ty, s), vals[0][1], st)
            if isinstance(vals[0], It):
                src = s.rv(vals[0].src, st) if isinstance(vals[0].src, LV) else vals[0].src
                g = s.seq_at(src); lo, hi = vals[0].pos, vals[1].pos
                return SetV(lambda q: Exists(hi - lo, lambda k: eq(g(add(k, lo)), q)), ty[1], ty[2])
        if k == 'map':
            if not vals: return default_value(ty, s)
            if isinstance(vals[0], MapV): return vals[0]
            if isinstance(vals[0], tuple): return s.from_initlist(default_value(ty, s), vals[0][1], st)
        if k == 'tup':
            if not vals: return default_value(ty, s)
            if len(vals) == 1 and isinstance(vals[0], Tup): return s.tup_conv(vals[0], ty, st, n)
            return s.tup_conv(Tup(vals), ty, st, n)
        if k in ('sptr', 'ptr'):
            if not vals: return Ptr(None, True)
            if isinstance(vals[0], Ptr): return vals[0]
        raise Unsupported('construct ' + t[:80])
    def tup_conv(s, v, ty, st, n):
        xs = []
        for x, q in zip(v.xs, ty[1]):
            if isinstance(x, LV): x = s.rv(x, st)
            if q[0] == 'mat' and isinstance(x, Mat): x = s.to_plain(x, q, st, n)
            xs.append(x)
        return Tup(xs)
    def construct_mat(s, ty, t, n, args, st):
        vals = [s.val(a, st) for a in args if not s.isdef(a)]
        if not vals: return default_value(ty, s)
        x = vals[0]
        ct = ty[2]
        if len(vals) == 1:
            if isinstance(x, Mat): return s.to_plain(x, ty, st, n)
            if isinstance(x, Decomp) and x.kind == 'perm': return s.to_plain(s.perm_mat(x), ty, st, n)
            if isinstance(x, Decomp): return s.decomp_to_mat(x, ty, st, n)
            if isinstance(x, tuple): return s.from_initlist(default_value(ty, s), x[1], st)
            if isinstance(x, T):
                x = trunc(x) if x.sort == 'R' else x
                s.oblige('shape: non-negative size', le(ZERO, x), st, n)
                if ct == 'row': return s.uninit_mat(ONE, x, ty, n)
                if ct == 'col': return s.uninit_mat(x, ONE, ty, n)
                return s.uninit_mat(x, ONE, ty, n)
            if isinstance(x, It): raise Unsupported('matrix from pointer')
        if len(vals) == 2 and isinstance(x, T):
            if ct == 'col' or ct == 'row':
                # fixed 2-vectors excluded (dynamic only)
                pass
            s.oblige('shape: non-negative size', and_(le(ZERO, x), le(ZERO, vals[1])), st, n)
            return s.uninit_mat(x, vals[1], ty, n)
        raise Unsupported('matrix constructor')
    def decomp_to_mat(s, x, ty, st, n):
        m = s.decomp_method('eval', None, x, [], n, st)
        return s.to_plain(m, ty, st, n)
    def construct_lib(s, b, t, n, args, st):
        if b == 'Map':
            tt = split_targs(strip(t))[1][0]
            ty = classify(tt)
            vals = [s.val(a, st) for a in args if not s.isdef(a)]
            vals = [x for x in vals if not isinstance(x, Opaque)]
            if len(vals) == 1 and isinstance(vals[0], Mat): return vals[0]
            return s.make_map(ty, vals, st, n)
        if b in ('basic_ifstream', 'ifstream', 'basic_stringstream', 'stringstream', 'basic_istringstream', 'istringstream') and args:
            v = s.val(args[0], st)
            if isinstance(v, T) and v.sort == 'U' and (v is c('vf-file') or v.op == 'app' and v.args[0] == 'vfline'):
                s.assumed.add('iostream contract: an input file is its list of lines, a line is its list of numbers; getline and >> read them in order and fail at the end')
                return Obj(StreamSrc(v), {'cur': ZERO, 'ok': TRUE})   # read position, good
        if b in STREAMS or b in ('invalid_argument', 'runtime_error', 'out_of_range', 'logic_error', 'IOFormat', 'Identity'):
            for a in args:
                if not s.isdef(a):
                    try: s.val(a, st)
                    except Unsupported: pass
            return Opaque('ostream' if 'stream' in b else 'exception')
        if b == 'PermutationMatrix':
            vals = [s.val(a, st) for a in args if not s.isdef(a)]
            N = vals[0]
            if isinstance(N, Decomp): return N
            if isinstance(N, Mat): return Decomp('perm', N)
            return Decomp('perm', s.uninit_mat(N, ONE, ('mat', 'I', 'col', 'M', (None, None), None), n))
        if b in ('random_device', 'mersenne_twister_engine', 'linear_congruential_engine', 'seed_seq', 'uniform_real_distribution', 'uniform_int_distribution', 'normal_distribution', 'mt19937', 'default_random_engine'):
            vals = [s.val(a, st) for a in args if not s.isdef(a)] if b.startswith('uniform_') else []
            if len(vals) == 2 and all(isinstance(x, T) for x in vals):
                s.assumed.add('std::uniform_int_distribution and std::uniform_real_distribution deliver values within their bounds')
                d = Dist('random'); d.lo, d.hi = vals; d.integer = b == 'uniform_int_distribution'
                s.oblige('distribution bounds in order', le(d.lo, d.hi), st, n)
                return d
            return Opaque('random')
        if b in ('less', 'greater'): return Opaque(b)
        if b in ('allocator',): return Opaque('alloc')
        if b in ('_Rb_tree_iterator', '_Rb_tree_const_iterator', '__normal_iterator', '_Node_iterator', '_Node_const_iterator', '_Deque_iterator', 'reverse_iterator'):
            vals = [s.val(a, st) for a in args if not s.isdef(a)]
            if len(vals) == 1: return vals[0]
            if not vals: return Opaque('iterator')
        r = s.ma.construct(s, b, t, n, args, st)
        if r is not None: return r
        # expression/view types: copy
        if len(args) == 1 and (s.is_view_type(t) or b in ('VectorwiseOp',)):
            return s.val(args[0], st)
        if len(args) == 1:
            v = s.val(args[0], st)
            if isinstance(v, (It, Mat, VWise, Lam, Decomp, FindRes, Ptr)): return v
        raise Unsupported('construct library class ' + b)
    def make_map(s, ty, vals, st, n):
        it = s.ptr_it(vals[0])
        if not isinstance(it, It): raise Unsupported('Map of ' + type(it).__name__)
        src = s.rv(it.src, st) if isinstance(it.src, LV) else it.src
        L = s.seq_len(src)
        if isinstance(src, Mat) and src.ct == 'mat': g = lambda k: src.f(imod(k, src.rows), idiv(k, src.rows))
        else: g = s.seq_at(src)
        if len(vals) == 2:
            N = vals[1]
            s.oblige('memory: Map stays inside the buffer', and_(le(ZERO, N), le(it.pos + N, L)), st, n)
            if ty[2] == 'row': return Mat(ONE, N, lambda i, j: g(add(c(j), it.pos)), ty[3], ty[1], 'row')
            return Mat(N, ONE, lambda i, j: g(add(c(i), it.pos)), ty[3], ty[1], 'col')
        r, cc = vals[1:3]
        s.oblige('memory: Map stays inside the buffer', and_(le(ZERO, r), le(ZERO, cc), le(it.pos + r * cc, L)), st, n)
        return Mat(r, cc, lambda i, j: g(add(it.pos, add(c(i), mul(c(j), r)))), ty[3], ty[1], ty[2])
    def ptr_it(s, p):
        """pointer to an element as an iterator into its container"""
        if isinstance(p, Ptr) and p.lv is not None and p.lv.path and p.lv.path[-1][0] == 'vi':
            acc = p.lv.path[-1]
            if len(acc) == 2: return It(LV(p.lv.cell, p.lv.path[:-1]), acc[1], 'vec')
        return p
    def default_class(s, t):
        b = split_targs(strip(t))[0].split('::')[-1]
        if s.find_class(t) is None:
            return Opaque('ostream' if b in STREAMS else strip(t))
        return super().default_class(t)

    # =============================================================== free library functions
    def libcall(s, name, args, n, st, callee):
        s.libs.add(name)
        m = getattr(s, 'f_' + name, None)
        if m is not None: return m(args, n, st, callee)
        if name in MATH1:
            v = s.val(args[0], st)
            if isinstance(v, Mat): return v.map(MATH1[name], 'R')
            return MATH1[name](s.scalar_of(v, st))
        h = s.hooks.get('libcall')
        if h is not None:
            r = h(s, name, args, n, st)
            if r is not None: return r
        # Eigen static functions
        if name in ('Zero', 'Ones', 'Constant', 'Identity', 'LinSpaced', 'Random', 'NullaryExpr', 'Map'): return s.eigen_static(name, args, n, st, callee)
        raise Unsupported('library function ' + str(name))
    def f_max(s, args, n, st, callee):
        if not args: return s.f_infinity(args, n, st, callee)
        if len(args) == 1:
            v = s.val(args[0], st)
            xs = v[1]
            r = xs[0]
            for x in xs[1:]: r = max2(r, x)
            return r
        a, b = s.val(args[0], st), s.val(args[1], st)
        if isinstance(a, Mat): return s.binmm(max2, a, b, st, n)
        return s.pick2(max2, s.scalar_of(a, st), s.scalar_of(b, st), st)
    def f_min(s, args, n, st, callee):
        if not args:
            if classify(n.ctype)[0] != 'R': raise Unsupported('numeric_limits::min of an integer type')
            return c(Fraction(1, 2 ** 1022))
        if len(args) == 1:
            xs = s.val(args[0], st)[1]; r = xs[0]
            for x in xs[1:]: r = min2(r, x)
            return r
        a, b = s.val(args[0], st), s.val(args[1], st)
        if isinstance(a, Mat): return s.binmm(min2, a, b, st, n)
        return s.pick2(min2, s.scalar_of(a, st), s.scalar_of(b, st), st)
    def pick2(s, g, a, b, st):
        """min / max of two sizes, decided where the path decides it"""
        if a.sort == 'I' and b.sort == 'I' and not (isc(a) or isc(b)):
            if st.ctx.decide(le(a, b)): return a if g is min2 else b
            if st.ctx.decide(le(b, a)): return b if g is min2 else a
        return g(a, b)
    def binmm(s, g, a, b, st, n):
        if isinstance(b, Mat): s.samesize(a, b, st, n); return Mat(a.rows, a.cols, lambda i, j: g(a.f(i, j), b.f(i, j)), a.kind, a.es, a.ct)
        return a.map(lambda x: g(x, b))
    def f_pow(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        if isinstance(a, Mat): return a.map(lambda x: pow_(x, b), 'R')
        return pow_(s.scalar_of(a, st), s.scalar_of(b, st))
    def f_abs(s, args, n, st, callee):
        v = s.val(args[0], st)
        if isinstance(v, Mat): return v.map(abs_)
        return abs_(s.scalar_of(v, st))
    f_fabs = f_abs
    def f_isnan(s, args, n, st, callee):
        s.assumed.add('machine arithmetic treated as mathematical: std::isnan never true on real values')
        s.val(args[0], st)
        return FALSE
    f_isinf = f_isnan
    def f_isfinite(s, args, n, st, callee): s.f_isnan(args, n, st, callee); return TRUE
    def f_floor(s, args, n, st, callee): return floor(s.num(args[0], st))
    def f_ceil(s, args, n, st, callee): return -floor(-s.num(args[0], st))
    def f_round(s, args, n, st, callee): 
        x = s.num(args[0], st)
        return ite(lt(x, ZERO), -floor(-x + c(Fraction(1, 2))), floor(x + c(Fraction(1, 2))))
    def f_move(s, args, n, st, callee): return s.val(args[0], st)
    def f_forward(s, args, n, st, callee): return s.ev(args[0], st)
    def f_make_tuple(s, args, n, st, callee): return s.tup_conv(Tup([s.val(a, st) for a in args]), ('tup', tuple(('x',) for a in args)), st, n)
    f_make_pair = f_make_tuple
    def f_tie(s, args, n, st, callee): return Tup([s.ev(a, st) for a in args])
    def f_get(s, args, n, st, callee):
        import re
        txt = s.u.text(callee) or ''
        m = re.search(r'get\s*<\s*(\d+)', txt)
        if not m: raise Unsupported('std::get index')
        i = int(m.group(1))
        b = s.ev(args[0], st); v = s.rv(b, st)
        return b.at('f', i) if isinstance(b, LV) else v.xs[i]
    def f_make_unique(s, args, n, st, callee):
        ty = classify(n.ctype)
        t = ty[1]
        if s.find_class(t) is None: raise Unsupported('make_unique ' + t)
        v = s.construct(t, None, [s.ev(a, st) for a in args], st, n)
        return Ptr(LV(s.new_cell(st, v, 'heap')), True)
    f_make_shared = f_make_unique
    def f_swap(s, args, n, st, callee):
        a, b = s.ev(args[0], st), s.ev(args[1], st)
        va, vb = s.rv(a, st), s.rv(b, st)
        s.lib_assign(a, vb, st, n); s.lib_assign(b, va, st, n)
        return Opaque('void')
    def f_infinity(s, args, n, st, callee):
        s.assumed.add('infinity exceeds every value computed from finite inputs')
        return var('INFTY', 'R')
    def f_quiet_NaN(s, args, n, st, callee):
        # a placeholder: an arbitrary number nothing is known about
        return fresh("nan", "R")
    def f_epsilon(s, args, n, st, callee): return c(Fraction(1, 2 ** 52))
    def f_lowest(s, args, n, st, callee): return sub(ZERO, s.f_infinity(args, n, st, callee))
    def f_begin(s, args, n, st, callee):
        b = s.ev(args[0], st); return s.libmethod('begin', b, s.rv(b, st), [], n, st, callee)
    def f_end(s, args, n, st, callee):
        b = s.ev(args[0], st); return s.libmethod('end', b, s.rv(b, st), [], n, st, callee)
    def f_next(s, args, n, st, callee):
        v = s.val(args[0], st); k = s.num(args[1], st) if len(args) > 1 and not s.isdef(args[1]) else ONE
        return It(v.src, add(v.pos, k), v.kind)
    def f_prev(s, args, n, st, callee):
        v = s.val(args[0], st); k = s.num(args[1], st) if len(args) > 1 and not s.isdef(args[1]) else ONE
        return It(v.src, sub(v.pos, k), v.kind)
    def f_distance(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        if isinstance(b, FindRes): return ite(b.found, b.key, s.seq_len(s.rv(b.src, st))) - a.pos
        return sub(b.pos, a.pos)
    def f_endl(s, args, n, st, callee): return Opaque('endl')
    # ---- ranges
    def rng(s, a, b, st, n):
        src = s.rv(a.src, st) if isinstance(a.src, LV) else a.src
        s.oblige('iterator range valid', and_(le(ZERO, a.pos), le(a.pos, b.pos), le(b.pos, s.seq_len(src))), st, n)
        return src, s.seq_at(src), a.pos, sub(b.pos, a.pos)
    def store_range(s, it, lo, cnt, g, st, n):
        """write g(k) for k<cnt at positions lo.. of the sequence behind it"""
        src = s.rv(it.src, st)
        # the whole sequence is overwritten: positions outside it do not exist
        if c(lo) is ZERO and isinstance(src, (Vec, Mat)) and c(cnt) is s.seq_len(src): inside = lambda i: TRUE
        else: inside = lambda i: and_(le(lo, i), lt(i, add(lo, cnt)))
        if isinstance(src, Vec):
            s.write(it.src, Vec(src.n, lambda i: merge(inside(c(i)), g(sub(c(i), lo)), src.f(i)), src.ety), st, n); return
        if isinstance(src, Mat):
            if src.ct == 'col': f = lambda i, j: ite(inside(c(i)), g(sub(c(i), lo)), src.f(i, j))
            elif src.ct == 'row': f = lambda i, j: ite(inside(c(j)), g(sub(c(j), lo)), src.f(i, j))
            else: f = lambda i, j: ite(inside(add(c(i), mul(c(j), src.rows))), g(sub(add(c(i), mul(c(j), src.rows)), lo)), src.f(i, j))
            s.write(it.src, src.with_(f=f), st, n); return
        raise Unsupported('store range')
    def order_of(s, cmp, sample, st, n):
        """recognise the comparator: returns key function list (asc/desc on scalars) -> ('lt'|'gt') or key-lambda"""
        if cmp is None: return 'lt'
        if isinstance(cmp, Opaque): return {'less': 'lt', 'greater': 'gt'}[cmp.tag]
        if isinstance(sample, T):
            a = fresh('a', sample.sort); b = fresh('b', sample.sort)
            st2 = st.copy()
            c0 = s.collect; s.collect = False
            try: r = s.rv(s.call_lambda(cmp, [a, b], st2, n), st2)
            finally: s.collect = c0
            r = s.N.nfb(r, ROOT, 0)
            if r == s.N.nfb(lt(a, b), ROOT, 0): return 'lt'
            if r == s.N.nfb(lt(b, a), ROOT, 0): return 'gt'
        raise Unsupported('comparator')
    def f_sort(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        cmp = s.val(args[2], st) if len(args) > 2 else None
        src, g, lo, cnt = s.rng(a, b, st, n)
        x = g(fresh('z'))
        if isinstance(x, T):
            o = s.order_of(cmp, x, st, n)
            if o == 'lt': h = lambda k: Ksm(cnt, lambda q: g(add(q, lo)), c(k))
            else: h = lambda k: Ksm(cnt, lambda q: g(add(q, lo)), sub(sub(cnt, ONE), c(k)))
            s.store_range(a, lo, cnt, h, st, n)
            return Opaque('void')
        raise Unsupported('sort of compound elements')
    def f_stable_sort(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        cmp = s.val(args[2], st) if len(args) > 2 else None
        src, g, lo, cnt = s.rng(a, b, st, n)
        G = lambda k: g(add(c(k), lo))
        def less(x, y):
            st2 = st.copy(); c0 = s.collect; s.collect = False
            try:
                if cmp is None: return lt(x, y)
                return s.tobool(s.rv(s.call_lambda(cmp, [x, y], st2, n), st2))
            finally: s.collect = c0
        # element preconditions of the comparator
        u, w = fresh('s'), fresh('s')
        st3 = st.copy(); st3.assume(and_(le(ZERO, u), lt(u, cnt), le(ZERO, w), lt(w, cnt)))
        if cmp is not None: s.call_lambda(cmp, [G(u), G(w)], st3, n)
        nm, lvs = s.skname('perm', n)
        p = lambda q: app(nm, lvs + (c(q),), 'I'); pi = lambda q: app(nm.replace('perm!', 'pinv!'), lvs + (c(q),), 'I')
        st.assume(Forall(cnt, lambda q: and_(le(ZERO, p(q)), lt(p(q), cnt), eq(pi(p(q)), q))))
        st.assume(Forall(cnt, lambda q: and_(le(ZERO, pi(q)), lt(pi(q), cnt), eq(p(pi(q)), q))))
        L = less(G(u), G(w)); key = up = None
        if L.op == 'lt':
            x, y = L.args
            if w not in x.fv and u not in y.fv and subst(x, {u: w}) is y: key, kv, up = x, u, True
            elif u not in x.fv and w not in y.fv and subst(x, {w: u}) is y: key, kv, up = x, w, False
        if key is not None:
            K = lambda z: subst(key, {kv: c(z)})
            st.assume(Forall(cnt, lambda q: eq(K(p(q)), Ksm(cnt, K, c(q) if up else sub(sub(cnt, ONE), c(q))))))
            asc = (lambda x, y: le(K(x), K(y))) if up else (lambda x, y: le(K(y), K(x)))
            st.assume(Forall(sub(cnt, ONE), lambda q: asc(p(q), p(add(c(q), ONE)))))
            st.assume(Forall(sub(cnt, ONE), lambda q: implies(eq(K(p(q)), K(p(add(c(q), ONE)))), lt(p(q), p(add(c(q), ONE))))))
        else:
            st.assume(Forall(sub(cnt, ONE), lambda q: not_(less(G(p(add(c(q), ONE))), G(p(q))))))
            st.assume(Forall(sub(cnt, ONE), lambda q: or_(less(G(p(q)), G(p(add(c(q), ONE)))), lt(p(q), p(add(c(q), ONE))))))
        s.assumed.add('std::stable_sort contract: the range is permuted into non-decreasing order, equal elements keep their order')
        s.perms = getattr(s, 'perms', []) + [(nm, cnt)]
        h = lambda q: G(p(q))
        s.store_range(a, lo, cnt, h, st, n)
        return Opaque('void')
    def f_nth_element(s, args, n, st, callee):
        a, m, b = [s.val(x, st) for x in args[:3]]
        src, g, lo, cnt = s.rng(a, b, st, n)
        base = src.ms if getattr(src, 'ms', None) is not None and lo is ZERO else g
        # value at the nth position is the nth smallest; other positions hold an unspecified arrangement
        k = sub(m.pos, lo)
        s.oblige('nth_element position inside the range', and_(le(lo, m.pos), lt(m.pos, b.pos)), st, n)
        nm, lvs = s.skname('nthel', n)
        G = lambda q: base(add(c(q), lo))
        val = Ksm(cnt, G, k)
        es = val.sort
        s.store_range(a, lo, cnt, lambda q: ite(eq(c(q), k), val, app(nm, lvs + (q,), es)), st, n)
        new = s.rv(a.src, st)
        if lo is ZERO and isinstance(a.src, LV):
            # multiset content is unchanged
            new.ms = base if cnt is s.seq_len(src) or s.N.nf(sub(cnt, s.seq_len(src)), st.ctx, 0) == {} else None
        return Opaque('void')
    def f_lower_bound(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        s.val(args[2], st)
        s.rng(a, b, st, n)
        nm, lvs = s.skname('bound', n)
        p = app(nm, lvs, 'I') if lvs else var(nm)
        st.assume(and_(le(a.pos, p), le(p, b.pos)))
        s.assumed.add('std::lower_bound/upper_bound contract: the result lies in the given range (which position is left open)')
        return It(a.src, p, a.kind)
    f_upper_bound = f_lower_bound
    def f_partial_sum(s, args, n, st, callee):
        a, b, o = [s.val(x, st) for x in args[:3]]
        src, g, lo, cnt = s.rng(a, b, st, n)
        dst = s.rv(o.src, st)
        s.oblige('output range large enough', le(add(o.pos, cnt), s.seq_len(dst)), st, n)
        s.store_range(o, o.pos, cnt, lambda k: Sum(add(c(k), ONE), lambda q: g(add(q, lo))), st, n)
        return It(o.src, add(o.pos, cnt), o.kind)
    def f_accumulate(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        init = s.val(args[2], st)
        src, g, lo, cnt = s.rng(a, b, st, n)
        if len(args) > 3: raise Unsupported('accumulate with functor')
        r = Sum(cnt, lambda q: g(add(q, lo)))
        if init.sort == 'I' and classify(n.ctype)[0] == 'I' and r.sort == 'R': raise Unsupported('accumulate truncation')
        return add(init, r)
    def f_iota(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st); v0 = s.num(args[2], st)
        src, g, lo, cnt = s.rng(a, b, st, n)
        s.store_range(a, lo, cnt, lambda k: add(v0, c(k)), st, n)
        return Opaque('void')
    def f_fill(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st); v0 = s.val(args[2], st)
        src, g, lo, cnt = s.rng(a, b, st, n)
        s.store_range(a, lo, cnt, lambda k: v0, st, n)
        return Opaque('void')
    def f_copy(s, args, n, st, callee):
        a, b, o = [s.val(x, st) for x in args[:3]]
        src, g, lo, cnt = s.rng(a, b, st, n)
        if isinstance(o, BackIns):
            s.append_range(o.lv, cnt, lambda k: g(add(k, lo)), st, n); return o
        dst = s.rv(o.src, st)
        s.oblige('output range large enough', le(add(o.pos, cnt), s.seq_len(dst)), st, n)
        s.store_range(o, o.pos, cnt, lambda k: g(add(k, lo)), st, n)
        return It(o.src, add(o.pos, cnt), o.kind)
    def append_range(s, lv, cnt, g, st, n):
        v = s.rv(lv, st)
        s.write(lv, Vec(add(v.n, cnt), lambda i: merge(lt(c(i), v.n), v.f(i), g(sub(c(i), v.n))), v.ety), st, n)
    def f_back_inserter(s, args, n, st, callee): return BackIns(s.ev(args[0], st))
    def f_transform(s, args, n, st, callee):
        vals = [s.val(x, st) for x in args]
        a, b = vals[0], vals[1]
        src, g, lo, cnt = s.rng(a, b, st, n)
        if len(vals) == 5:
            a2 = vals[2]; s2 = s.rv(a2.src, st) if isinstance(a2.src, LV) else a2.src
            s.oblige('second range of transform long enough', le(add(a2.pos, cnt), s.seq_len(s2)), st, n)
            g2 = s.seq_at(s2)
            ar = lambda k: [g(add(k, lo)), g2(add(k, a2.pos))]
        else: ar = lambda k: [g(add(k, lo))]
        lam = vals[-1]; o = vals[-2]
        pt = params_of(s.lam_op(lam))
        def h(k):
            st2 = st.copy(); c0 = s.collect; s.collect = False
            try: return s.rv(s.call_lambda(lam, ar(c(k)), st2, n), st2)
            finally: s.collect = c0
        if isinstance(o, BackIns):
            s.append_range(o.lv, cnt, h, st, n); return o
        s.store_range(o, o.pos, cnt, h, st, n)
        return It(o.src, add(o.pos, cnt), o.kind)
    def lam_op(s, lam):
        op = lam.node
        if op.kind == 'FunctionTemplateDecl':
            inst = [x for x in op.inner if x is not None and x.kind == 'CXXMethodDecl' and body_of(x) is not None]
            op = inst[-1]
        return op
    def f_find(s, args, n, st, callee):
        a, b, x = [s.val(q, st) for q in args[:3]]
        src, g, lo, cnt = s.rng(a, b, st, n)
        ex = Exists(cnt, lambda k: s.compare('==', g(add(k, lo)), x, st))
        pos = ArgMax(cnt, lambda k: br(s.compare('==', g(add(k, lo)), x, st)))
        if isc(cnt) and cv(cnt) <= 8:
            ex = or_(*[s.compare('==', g(add(c(k), lo)), x, st) for k in range(int(cv(cnt)))])
        return FindRes(a.src, add(pos, lo), ex)
    def _anyall(s, args, n, st, mode):
        a, b, lam = [s.val(q, st) for q in args[:3]]
        src, g, lo, cnt = s.rng(a, b, st, n)
        def p(k):
            st2 = st.copy(); c0 = s.collect; s.collect = False
            try: return s.tobool(s.rv(s.call_lambda(lam, [g(add(k, lo))], st2, n), st2))
            finally: s.collect = c0
        if mode == 'any': return Exists(cnt, p)
        if mode == 'none': return not_(Exists(cnt, p))
        if mode == 'all': return not_(Exists(cnt, lambda k: not_(p(k))))
        return Count(cnt, p)
    def f_any_of(s, a, n, st, cl): return s._anyall(a, n, st, 'any')
    def f_none_of(s, a, n, st, cl): return s._anyall(a, n, st, 'none')
    def f_all_of(s, a, n, st, cl): return s._anyall(a, n, st, 'all')
    def f_count_if(s, a, n, st, cl): return s._anyall(a, n, st, 'count')
    def f_count(s, args, n, st, callee):
        a, b, x = [s.val(q, st) for q in args[:3]]
        src, g, lo, cnt = s.rng(a, b, st, n)
        return Count(cnt, lambda k: s.compare('==', g(add(k, lo)), x, st))
    def _extel(s, args, n, st, mx):
        a, b = s.val(args[0], st), s.val(args[1], st)
        src, g, lo, cnt = s.rng(a, b, st, n)
        if len(args) > 2:
            lam = s.val(args[2], st)
            x, y = fresh('a'), fresh('b')
            # comparator must be  key(p) < key(q): probe with the map value / second component
            z1, z2 = g(x), g(y)
            st2 = st.copy(); c0 = s.collect; s.collect = False
            try: r = s.tobool(s.rv(s.call_lambda(lam, [z1, z2], st2, n), st2))
            finally: s.collect = c0
            if r.op != 'lt': raise Unsupported('comparator of max_element')
            key = lambda k: subst(r.args[0], {x: k})
            if s.N.nf(sub(subst(r.args[0], {x: y}), r.args[1]), ROOT, 0): raise Unsupported('comparator of max_element')
        else: key = lambda k: g(k)
        s.oblige('non-empty range', lt(ZERO, cnt), st, n)
        A = ArgMax if mx else ArgMin
        pos = add(A(cnt, lambda k: key(add(k, lo))), lo)
        return It(a.src, pos, a.kind)
    def f_max_element(s, a, n, st, cl): return s._extel(a, n, st, True)
    def f_min_element(s, a, n, st, cl): return s._extel(a, n, st, False)
    def stream_get(s, l, sv, dst, st, n):
        src = sv.cls.src; cur = sv.f['cur']; ok = sv.f['ok']
        if not (src.op == 'app' and src.args[0] == 'vfline'): raise Unsupported('extraction from a file stream')
        row = s.vfile.f(src.args[1])
        good = and_(ok, lt(cur, row.n))
        s.write(dst, ite(good, row.f(cur), c(0)), st, n)
        s.write(l, Obj(sv.cls, {'cur': ite(good, add(cur, ONE), cur), 'ok': good}), st, n)
        return l
    def f_getline(s, args, n, st, callee):
        l = s.ev(args[0], st); sv = s.rv(l, st)
        if not is_stream(sv): raise Unsupported('getline of an unmodelled stream')
        src = sv.cls.src; cur = sv.f['cur']; ok = sv.f['ok']
        if src is not c('vf-file'): raise Unsupported('getline of a string stream')
        good = and_(ok, lt(cur, s.vfile.n))
        s.write(s.ev(args[1], st), app('vfline', (cur,), 'U'), st, n)
        s.write(l, Obj(sv.cls, {'cur': ite(good, add(cur, ONE), cur), 'ok': good}), st, n)
        return l
    def f_vf_file(s, args, n, st, callee):
        s.vfile = s.val(args[0], st)
        return c('vf-file')
    def f_now(s, args, n, st, callee): return Opaque('clock')
    def f_shuffle(s, args, n, st, callee):
        a, b = s.val(args[0], st), s.val(args[1], st)
        src, g, lo, cnt = s.rng(a, b, st, n)
        nm, lvs = s.skname('perm', n)
        p = lambda q: app(nm, lvs + (q,), 'I'); pi = lambda q: app(nm.replace('perm!', 'pinv!'), lvs + (q,), 'I')
        st.assume(Forall(cnt, lambda q: and_(le(ZERO, p(q)), lt(p(q), cnt), eq(pi(p(q)), q))))
        st.assume(Forall(cnt, lambda q: and_(le(ZERO, pi(q)), lt(pi(q), cnt), eq(p(pi(q)), q))))
        s.assumed.add('std::shuffle contract: the range is permuted by some bijection of its positions')
        s.perms = getattr(s, 'perms', []) + [(nm, cnt)]
        s.store_range(a, lo, cnt, lambda q: g(add(p(q), lo)), st, n)
        return Opaque('void')
    # ---- specification monitors (declared in the client prelude, never in /repo)
    def f_vf_assert(s, args, n, st, callee):
        cnd = s.cond(args[0], st); w = s.val(args[1], st)
        s.oblige('monitor: %s' % (cv(w) if isc(w) else '?'), cnd, st, n)
        st.assume(cnd)
        return Opaque('void')
    def f_vf_le(s, args, n, st, callee):
        a, b = s.num(args[0], st), s.num(args[1], st); w = s.val(args[2], st)
        s.oblige('monitor: %s' % (cv(w) if isc(w) else '?'), le(a, b), st, n)
        st.assume(le(a, b))
        return Opaque('void')
    def f_vf_same(s, args, n, st, callee):
        a, b, w = [s.val(x, st) for x in args]
        w = cv(w)
        s.oblige('monitor: %s (rows)' % w, eq(a.rows, b.rows), st, n)
        s.oblige('monitor: %s (cols)' % w, eq(a.cols, b.cols), st, n)
        old, s.ma.cur = s.ma.cur, st.ctx
        try: same = s.ma.rules and s.ma.equal(a, b, st.ctx)
        finally: s.ma.cur = old
        if same:      # equal as matrix polynomials under the contracts of the decompositions
            s.oblige('monitor: %s [matrix algebra]' % w, TRUE, st, n); return Opaque('void')
        g = Forall(a.rows, lambda i: Forall(a.cols, lambda j: eq(a.f(i, j), b.f(i, j))))
        s.oblige('monitor: %s' % w, g, st, n)
        st.assume(g)
        return Opaque('void')
    def f_vf_regular(s, args, n, st, callee): return s.ma.regular(s.val(args[0], st))
    def f_vf_zero(s, args, n, st, callee): return eq(s.num(args[0], st), ZERO)
    def f_vf_spd(s, args, n, st, callee): return s.ma.spd(s.val(args[0], st))
    def f_vf_blank(s, args, n, st, callee):
        o = s.default_class(n.ctype)
        if not isinstance(o, Obj): raise Unsupported('vf_blank of ' + n.ctype)
        return LV(s.new_cell(st, o, 'obj'))
    def f_vf_arb(s, args, n, st, callee):
        a = [s.num(x, st) for x in args]
        return app('vf_arb', tuple(a), 'R')
    def f_vf_arbm(s, args, n, st, callee):
        a = [s.num(x, st) for x in args]
        s.oblige('vf_arbm: non-negative size', and_(le(ZERO, a[2]), le(ZERO, a[3])), st, n)
        return Mat(a[2], a[3], lambda i, j: app('vf_arb', (a[0], a[1], c(i), c(j)), 'R'), 'M', 'R', 'mat')
    # ---- Eigen statics
    def eigen_static(s, name, args, n, st, callee):
        ty = s.static_type(n, callee)
        a = [s.val(x, st) for x in args if not s.isdef(x)]
        if name == 'Map': return s.make_map(ty, a, st, n)
        ct = ty[2]
        def dims(xs):
            if not xs: return c(int(ty[4][0] or 0)), c(int(ty[4][1] or 0))
            if len(xs) == 1: return (xs[0], ONE) if ct == 'col' else (ONE, xs[0])
            return xs[0], xs[1]
        if name in ('Zero', 'Ones'):
            r, cc = dims(a); v = ZERO if name == 'Zero' else ONE
            return Mat(r, cc, lambda i, j: v, ty[3], ty[1], ct)
        if name == 'Constant':
            r, cc = dims(a[:-1]); v = a[-1]
            return Mat(r, cc, lambda i, j: v, ty[3], ty[1], ct)
        if name == 'Identity':
            r, cc = dims(a)
            return Mat(r, cc, lambda i, j: ite(eq(i, j), ONE, ZERO), ty[3], ty[1], ct)
        if name == 'LinSpaced':
            N, lo, hi = a[-3:]
            if ty[1] == 'I':
                # integer linspace: exact only when the step divides; contract for step 1, else Eigen's rounding rule
                if s.N.nf(sub(sub(hi, lo), sub(N, ONE)), st.ctx, 0) == {}:
                    g = lambda k: add(lo, c(k))
                else:
                    nm = fresh('linspace'); 
                    if s.N.nf(sub(sub(hi, lo), N), st.ctx, 0) == {}:
                        # Eigen 3.4: high-low >= size-1: multiplier (high-low)/(size-1) integer quotient when size>1
                        q = ite(le(N, ONE), ONE, idiv(sub(hi, lo), sub(N, ONE)))
                        g = lambda k: ite(eq(N, ONE), hi, add(lo, mul(c(k), q)))
                    else: raise Unsupported('integer LinSpaced')
            else:
                g = lambda k: ite(eq(N, ONE), hi, add(lo, div(mul(c(k), sub(hi, lo)), sub(N, ONE))))
            if ct == 'row': return Mat(ONE, N, lambda i, j: g(j), ty[3], ty[1], 'row')
            return Mat(N, ONE, lambda i, j: g(i), ty[3], ty[1], 'col')
        if name in ('Random', 'NullaryExpr'):
            lam = [x for x in a if isinstance(x, Lam)]
            a = [x for x in a if isinstance(x, T)]
            r, cc = dims(a)
            m = s.fresh_mat('rand', r, cc, ty[1], ct, node=n)
            if name == 'NullaryExpr' and len(lam) == 1 and len(a) < 3:
                st2 = st.copy(); c0 = s.collect; s.collect = False; d0 = len(s.draws)
                try: v = s.rv(s.call_lambda(lam[0], [], st2, n), st2)
                except Unsupported: v = None
                finally: s.collect = c0
                new = s.draws[d0:]; del s.draws[d0:]
                if isinstance(v, T) and len(new) == 1 and new[0][0] is v:
                    b = new[0][1]
                    st.assume(Forall(r, lambda i: Forall(cc, lambda j: b.bounds(m.f(i, j)))))
            return m
        raise Unsupported(name)
    def static_type(s, n, callee):
        # CwiseNullaryOp<..., Matrix<..>> names the plain type
        t = n.ctype
        i = max(t.find('CwiseNullaryOp<'), 0)
        import re
        m = re.search(r'(?:Eigen::)?(Matrix|Array)<', t[i:])
        if m:
            sub_ = t[i + m.start():]
            d = 0
            for k, ch in enumerate(sub_):
                if ch == '<': d += 1
                if ch == '>':
                    d -= 1
                    if d == 0: break
            ty = classify(sub_[:k + 1])
            if ty[0] == 'mat': return ty
        raise Unsupported('static type ' + t[:100])

class FindRes:
    __slots__ = ('src', 'key', 'found')
    def __init__(s, src, key, found): s.src = src; s.key = key; s.found = found
class BackIns:
    __slots__ = ('lv',)
    def __init__(s, lv): s.lv = lv
def sign_(x): return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), c(-1), ZERO))
def log2_(x): return div(log(x), log(c(2)))
UNARY = {'exp': exp, 'log': log, 'sqrt': sqrt, 'abs': abs_, 'abs2': lambda x: x * x, 'square': lambda x: x * x, 'inverse': inv, 'sign': sign_,
         'cube': lambda x: x * x * x, 'log2': log2_, 'log10': lambda x: div(log(x), log(c(10))), 'tanh': lambda x: fn('tanh', x),
         'isNaN': lambda x: FALSE, 'isFinite': lambda x: TRUE, 'floor': floor, 'ceil': lambda x: -floor(-x)}
MATH1 = {'exp': exp, 'log': log, 'sqrt': sqrt, 'log2': log2_, 'log10': lambda x: div(log(x), log(c(10))), 'tanh': lambda x: fn('tanh', x), 'square': lambda x: x * x,
         'sign': sign_, 'log1p': lambda x: log(x + ONE), 'expm1': lambda x: exp(x) - ONE}
