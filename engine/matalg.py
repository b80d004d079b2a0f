"""Matrix-algebra back end: dense real matrices as polynomials over non-commuting letters (with transposes), rewritten by the
contracts of the decompositions the code calls (inverse, LLT, LU, QR, SVD, ...).  A letter is identified by the normal form of the
matrix's generic element, so matrices that are built differently but are equal element by element are the same letter."""
from terms import *
from norm import *
from values import *
import os
DEBUG = bool(os.environ.get("VF_DEBUG"))

MI, MJ = var('%mi', 'I'), var('%mj', 'I')

class MatAlg:
    def __init__(s, it):
        s.it = it; s.keys = {}; s.mats = []; s.rules = []; s.gen = 0; s.base = ROOT; s.xrules = set(); s.diag = set(); s.used = set(); s.symm = set(); s.opaque = set(); s.expanded = set(); s.family = {}; s.instd = set(); s.insting = 0; s.made = {}; s.forced = set(); s.cur = None; s.dims = {}; s.memo = {}; s.els = {}

    # ---- loops execute their body several times; what a probing pass learns is dropped
    def snapshot(s):
        return (list(s.rules), set(s.xrules), set(s.expanded), s.base, set(s.used), dict(s.made), {k: v for k, v in s.keys.items() if isinstance(k, tuple) and k and k[0] in ('dec', 'inv')}, set(s.instd), set(s.forced))
    def restore(s, z):
        s.rules, s.xrules, s.expanded, s.base, s.used, s.made, keep, s.instd = list(z[0]), set(z[1]), set(z[2]), z[3], set(z[4]), dict(z[5]), z[6], set(z[7])
        for k in [k for k in s.keys if isinstance(k, tuple) and k and k[0] in ('dec', 'inv') and k not in keep]: del s.keys[k]
        for sid in s.forced - z[8]: s.symm.discard(sid)
        s.forced = set(z[8])
    def site(s, name, node):
        """a name for what a decomposition at this place gives; a second, different one at the same place gets a name of its own"""
        nm, lv = s.it.skname(name, node)
        n = s.made[nm] = s.made.get(nm, 0) + 1
        return (nm if n == 1 else nm.replace('!', '_%d!' % n)), lv

    # ---- letters
    def ctx0(s, m): return s.base.extend(le(ZERO, MI), lt(MI, m.rows), le(ZERO, MJ), lt(MJ, m.cols))
    def nft(s, t): return s.it.N.nft(t, s.base, 0)
    def dim(s, t):
        """a dimension, simplified where the facts of the current state allow"""
        t = s.nft(t)
        if t.op in ('const', 'var') or s.cur is None: return t
        k = (t, id(s.cur))
        r = s.dims.get(k)
        if r is None: r = s.dims[k] = (s.it.N.nft(t, s.cur, 0), s.cur)
        return r[0]
    def elem(s, m, ctx=None):
        return p_to_term(s.it.N.nf(br(m.f(MI, MJ)) if m.f(MI, MJ).sort == 'B' else m.f(MI, MJ), ctx or s.ctx0(m), 0))
    def letter(s, m):
        """NC polynomial of a matrix given by its elements"""
        e = s.elem(m)
        if e is ZERO: return {}
        r, cc = s.dim(m.rows), s.dim(m.cols)
        if r is not m.rows or cc is not m.cols: m = Mat(r, cc, m.f, m.kind, m.es, m.ct)
        ident = p_to_term(s.it.N.nf(br(eq(MI, MJ)), s.ctx0(m), 0))
        if e is ident and r is cc: return {(): pconst(1)}
        key = (r, cc, e)
        k = s.keys.get(key)
        if k is None:
            # a scaled or transposed copy of a known letter?
            et = p_to_term(s.it.N.nf(subst(e, {MI: var('%mt', 'I')}), ROOT, 0)) if False else None
            tm = Mat(m.cols, m.rows, lambda i, j: m.f(j, i), m.kind, m.es, 'mat')
            te = s.elem(tm); tk = s.keys.get((cc, r, te))
            if tk is not None: s.keys[key] = k = (tk[0], not tk[1])
            if k is None:    # the same matrix, written differently?
                for sid, o in enumerate(s.mats):
                    for q, om in ((False, o), (True, tm)):
                        if k is None and s.nft(om.rows) is (r if not q else s.nft(o.rows)) and (s.nft(o.rows), s.nft(o.cols)) == ((r, cc) if not q else (cc, r)) and sid not in s.opaque and s.same(o, m if not q else tm): k = (sid, q)
                if k is not None: s.keys[key] = k
            if k is None:
                fw = s.factor(m, e)
                if fw is not None: return fw
            if k is None and not s.insting and s.instantiate(e):
                k = s.keys.get(key)
                if k is None and (cc, r, te) in s.keys: tk = s.keys[(cc, r, te)]; s.keys[key] = k = (tk[0], not tk[1])
            if k is None:
                sid = len(s.mats); s.mats.append(Mat(m.rows, m.cols, m.f, 'M', m.es, 'mat')); k = (sid, False); s.keys[key] = k
                if te is e and r is cc: s.symm.add(sid)
                if s.is_diag(m): s.diag.add(sid)
        return {(s.canon(k),): pconst(1)}
    def instantiate(s, e):
        """e is the element of a letter that was made in a loop iteration (its name carries the loop variables), taken at other
        values of those variables: the contract of the decomposition holds there as well, so its rules are copied"""
        fam = set()
        def look(z):
            if z.op == 'app' and z.args[0] in s.family: fam.add((s.family[z.args[0]], tuple(z.args[1:1 + len(s.family[z.args[0]])])))
            elif z.op in ('ite', 'app'):
                for q in z.args:
                    if isinstance(q, T): look(q)
        look(e)
        if len(fam) != 1: return False
        (lv, xs), = fam
        if any({MI, MJ} & set(x.fv) for x in xs) or tuple(xs) == lv or (lv, xs) in s.instd: return False
        s.instd.add((lv, xs)); s.insting += 1
        sg = dict(zip(lv, xs))
        try:
            mp = {}
            for sid in range(len(s.mats)):
                m = s.mats[sid]
                fv = m.f(MI, MJ).fv | c(m.rows).fv | c(m.cols).fv
                if not (fv & set(lv)): continue
                g = Mat(subst(c(m.rows), sg), subst(c(m.cols), sg), lambda i, j, m=m: subst(m.f(MI, MJ), {**sg, MI: c(i), MJ: c(j)}), 'M', m.es, 'mat')
                pl = s.letter(g)
                if len(pl) != 1 or len(next(iter(pl))) != 1: continue
                l = next(iter(pl))[0]; mp[sid] = l
                if sid in s.opaque: s.opaque.add(l[0])
                if sid in s.symm: s.symm.add(l[0])
            def w2(w): return tuple(s.canon((mp[x][0], mp[x][1] != t)) if x in mp else (x, t) for x, t in w)
            for i, (l, r) in enumerate(list(s.rules)):
                ps = {x for w in [l] + list(r) for x, t in w}
                if not (ps & set(mp)): continue
                if any(x not in mp and (s.mats[x].f(MI, MJ).fv & set(lv)) for x in ps): continue
                if i in s.xrules: s.xrules.add(len(s.rules))
                s.rules.append((w2(l), {w2(w): s.it.N.nf(subst(p_to_term(p), sg), ROOT, 0) for w, p in r.items()}))
        finally: s.insting -= 1
        return True
    def factor(s, m, e):
        """a matrix whose elements are those of a known opaque letter A, scaled by row or by column and/or cut to leading rows and
        columns: D*J*A*J'*D' with diagonal D, D' and rectangular identities J, J'"""
        p = s.it.N.nf(e, s.ctx0(m), 0)
        if not p: return None
        for sid in s.opaque:
            A = s.mats[sid]
            for t in (False, True):
                at = A.f(MJ, MI) if t else A.f(MI, MJ)
                if at.op != 'app': continue
                if not all(dict(w).get(at) == 1 for w in p): continue
                g = {tuple(z for z in w if z[0] is not at): q for w, q in p.items()}
                dep = set()
                for w in g:
                    for a, _ in w: dep |= {x for x in (MI, MJ) if x in a.fv}
                if len(dep) > 1: continue
                ar, ac = (A.cols, A.rows) if t else (A.rows, A.cols)
                if not (s.nft(ar) is s.nft(m.rows) or s.base.decide(le(m.rows, ar))) or not (s.nft(ac) is s.nft(m.cols) or s.base.decide(le(m.cols, ac))): continue
                gt = p_to_term(g)
                r = {((sid, t),): pconst(1)}
                J = lambda a, b: s.letter(Mat(a, b, lambda i, j: ite(eq(i, j), ONE, ZERO), 'M', 'R', 'mat'))
                if s.nft(ar) is not s.nft(m.rows): r = s.mul(J(m.rows, ar), r)
                if s.nft(ac) is not s.nft(m.cols): r = s.mul(r, J(ac, m.cols))
                if MI in dep: r = s.mul(s.letter(Mat(m.rows, m.rows, lambda i, j: ite(eq(i, j), subst(gt, {MI: c(i)}), ZERO), 'M', 'R', 'mat')), r)
                elif MJ in dep: r = s.mul(r, s.letter(Mat(m.cols, m.cols, lambda i, j: ite(eq(i, j), subst(gt, {MJ: c(i)}), ZERO), 'M', 'R', 'mat')))
                else: r = {w: pmul(q, g) for w, q in r.items()}
                return r
        return None
    def same(s, a, b):
        from prove import Prover
        try: return Prover(4, 500).prove(eq(a.f(MI, MJ), b.f(MI, MJ)), s.ctx0(a))
        except (Budget, RecursionError): return False
    def proves(s, f, ctx):
        from prove import Prover
        try: return Prover(4, 500).prove(f, ctx)
        except (Budget, RecursionError): return False
    def canon(s, k): return (k[0], False) if k[0] in s.symm else k
    def is_diag(s, m):
        ctx = s.ctx0(m).extend(not_(eq(MI, MJ)))
        p = s.it.N.nf(m.f(MI, MJ), ctx, 0)
        return not p
    def fresh(s, name, rows, cols, node, st, shape=None):
        """a new matrix known only through the rules of a contract"""
        nm, lv = s.site(name, node)
        g = lambda i, j: app(nm, lv + (i, j), 'R')
        m = Mat(rows, cols, g if shape is None else lambda i, j: shape(g, c(i), c(j)), 'M', 'R', 'mat')
        if lv: s.family[nm] = lv
        l = next(iter(s.letter(m)))[0]; s.opaque.add(l[0])
        return m, l

    # ---- polynomials
    def nc(s, m):
        if isinstance(m.nc, dict): return m.nc
        k = (id(m), id(s.cur), len(s.instd))
        r = s.memo.get(k)
        if r is None: r = s.memo[k] = (s.letter(m) if m.nc is None else m.nc(s), m, s.cur)
        return r[0]
    def within(fn):
        """runs with the facts of the state (last argument or st=...) known to dim()"""
        def g(s, *a):
            st = next((x for x in reversed(a) if hasattr(x, 'ctx') and hasattr(x, 'store')), None)
            old = s.cur; s.cur = st.ctx if st is not None else old
            try: return fn(s, *a)
            finally: s.cur = old
        return g
    def mul(s, a, b):
        r = {}
        for w, p in a.items():
            for v, q in b.items(): s.acc(r, w + v, pmul(p, q))
        return r
    def acc(s, r, w, p):
        x = padd(r.get(w, {}), p)
        if x: r[w] = x
        else: r.pop(w, None)
    def add(s, a, b, k=1):
        r = dict(a)
        for w, p in b.items(): s.acc(r, w, pscale(p, Fraction(k)))
        return r
    def scale(s, a, t): 
        p = s.it.N.nf(t, ROOT, 0) if isinstance(t, T) else t
        r = {}
        for w, q in a.items(): s.acc(r, w, pmul(p, q))
        return r
    def tr(s, a):
        r = {}
        for w, p in a.items(): s.acc(r, tuple(s.canon((x, not t)) for x, t in reversed(w)), p)
        return r
    def rule(s, lhs, rhs, both=True, expand=False):
        """word -> polynomial (and its transpose)"""
        lhs = tuple(lhs)
        if expand: s.xrules |= {len(s.rules), len(s.rules) + 1}
        s.rules.append((lhs, rhs))
        if both:
            t = tuple(s.canon((x, not q)) for x, q in reversed(lhs))
            if t != lhs: s.rules.append((t, s.tr(rhs)))
    def reduce(s, a, expand=True, limit=4000):
        todo = dict(a); out = {}; n = 0
        while todo:
            w, p = todo.popitem(); n += 1
            if n > limit: raise Unsupported('matrix rewriting does not terminate')
            hit = None
            for i in range(len(w)):
                for k, (l, r) in enumerate(s.rules):
                    if w[i:i + len(l)] == l and (expand or k not in s.xrules): hit = (i, len(l), r, k); break
                if hit: break
            if hit is None:
                # adjacent (rectangular) diagonal letters multiply element by element
                for i in range(len(w) - 1):
                    if w[i][0] in s.diag and w[i + 1][0] in s.diag:
                        a_, b_ = s.mat_of(w[i]), s.mat_of(w[i + 1])
                        r_ = Mat(a_.rows, b_.cols, lambda x, y, a_=a_, b_=b_: ite(and_(eq(x, y), lt(x, a_.cols)), mul(a_.f(x, x), b_.f(x, x)), ZERO), 'M', 'R', 'mat')
                        pr = s.letter(r_)
                        if len(pr) <= 1 and all(len(z) <= 1 for z in pr): hit = (i, 2, pr, None); break
            if hit is None: s.acc(out, w, p); continue
            i, ln, r, k = hit
            if k is not None: s.used.add(k)
            for v, q in r.items(): s.acc(todo, w[:i] + v + w[i + ln:], pmul(p, q))
        # orthogonally weighted duplicates: nothing more
        return out
    def mat_of(s, l):
        m = s.mats[l[0]]
        return Mat(m.cols, m.rows, lambda i, j: m.f(j, i), 'M', m.es, 'mat') if l[1] else m
    def value(s, poly, rows, cols, ct='mat'):
        """matrix value of a polynomial: elements from the letters"""
        def f(i, j):
            tot = ZERO
            for w, p in poly.items():
                tot = add(tot, mul(p_to_term(p), s.word_el(w, c(i), c(j))))
            return tot
        return Mat(rows, cols, f, 'M', 'R', ct, nc=poly)
    def word_el(s, w, i, j):
        if not w: return ite(eq(i, j), ONE, ZERO)
        m = s.mat_of(w[0])
        if len(w) == 1: return m.f(i, j)
        return Sum(m.cols, lambda k: mul(m.f(i, k), s.word_el(w[1:], k, j)))
    def key(s, m):
        """identity of a matrix value for predicates over matrices"""
        p = s.reduce(s.nc(m), expand=False)
        k = tuple(sorted((w, tuple(sorted((mm and tuple((a.id, e) for a, e in mm), q) for mm, q in pp.items()))) for w, pp in p.items()))
        k = (k, s.nft(m.rows))
        if k not in s.keys: s.gen += 1; s.keys[k] = s.gen
        return c(s.keys[k])
    def equal(s, a, b, ctx=None):
        try: d = s.reduce(s.add(s.reduce(s.nc(a)), s.reduce(s.nc(b)), -1))
        except Unsupported: return False
        if not d: return True
        if DEBUG: print('matalg diff', [(w, [(show(p_to_term(q)))]) for w, q in d.items()], {i: (show(s.elem(m)), show(m.rows), show(m.cols), i in s.diag, i in s.symm) for i, m in enumerate(s.mats)}, 'rules', [(l, list(r)) for l, r in s.rules])
        if ctx is None: return False
        # words P*D*S that differ only in one diagonal letter D: the diagonals cancel element by element in this context
        from prove import Prover
        grp = {}; short = []
        for w, p in d.items():
            k = [i for i, l in enumerate(w) if l[0] in s.diag]
            if len(k) != 1:
                short.append((w, p)); continue
            grp.setdefault((w[:k[0]], w[k[0] + 1:]), []).append((s.mat_of(w[k[0]]), p))
        for w, p in short:      # a word equal to P*I*S
            for (P_, S_), ds in grp.items():
                m = ds[0][0]
                if s.nft(m.rows) is s.nft(m.cols) and s.reduce({P_ + S_: pconst(1)}) == {w: pconst(1)}:
                    ds.append((Mat(m.rows, m.cols, lambda i, j: ite(eq(i, j), ONE, ZERO), 'M', 'R', 'mat'), p)); break
            else: return False
        for ds in grp.values():
            m = ds[0][0]; e = ZERO
            for x, p in ds: e = add(e, mul(p_to_term(p), x.f(MI, MI)))
            try:
                if not Prover(10, 800).prove(eq(e, ZERO), ctx.extend(le(ZERO, MI), lt(MI, m.rows), lt(MI, m.cols))): return False
            except (Budget, RecursionError): return False
        return True

    # ---- contracts of the decompositions
    def pred(s, name, m):
        """a predicate over matrices; a single letter that depends on loop variables gives a predicate over those variables"""
        p = s.reduce(s.nc(m), expand=False)
        if len(p) == 1 and len(next(iter(p))) == 1 and pisconst(next(iter(p.values()))) and pval(next(iter(p.values()))) == 1:
            l = next(iter(p))[0]
            e = s.els.get(l[0])
            if e is None: e = s.els[l[0]] = s.elem(s.mat_of((l[0], False)))
            ps = sorted((v for v in e.fv if v.sort == 'I' and '!' in v.args[0]), key=lambda v: v.id)
            if ps:
                gen = subst(e, {v: var('%%p%d' % i) for i, v in enumerate(ps)})
                k = ('fam', gen, s.nft(m.rows))
                if k not in s.keys: s.gen += 1; s.keys[k] = s.gen
                return eq(app(name, (c(s.keys[k]),) + tuple(ps), 'I'), ONE)
        return eq(app(name, (s.key(m),), 'I'), ONE)
    def regular(s, m): return s.pred('regular', m)
    def spd(s, m): return s.pred('spd', m)
    @within
    def inverse(s, m, st, node, regular=False):
        it = s.it
        it.oblige('shape: inverse of a square matrix', eq(m.rows, m.cols), st, node)
        if not regular: it.oblige('inverse(): the matrix is regular', s.regular(m), st, node)
        a = s.reduce(s.nc(m), expand=False)
        k = ('inv', s.key(m))
        if k in s.keys: return s.keys[k]
        if set(a) == {()}:
            q = a[()]
            return s.value({(): s.it.N.nf(inv(p_to_term(q)), ROOT, 0)}, m.rows, m.cols)
        b, lb = s.fresh('inv', m.rows, m.rows, node, st)
        if s.tr(a) == a:
            s.symm.add(lb[0]); s.forced.add(lb[0]); lb = (lb[0], False)
        lead = max(a, key=lambda w: (len(w), w)); q = a[lead]
        one = {(): pconst(1)}
        rest = {w: p for w, p in a.items() if w != lead}
        iq = {(): s.it.N.nf(inv(p_to_term(q)), ROOT, 0)} if not pisconst(q) else {(): pconst(1 / pval(q))}
        lw = (lb,)
        s.rule(lw + lead, s.mul(iq, s.add(one, s.mul({lw: pconst(1)}, rest), -1)), both=lb[0] not in s.symm)
        s.rule(lead + lw, s.mul(iq, s.add(one, s.mul(rest, {lw: pconst(1)}), -1)), both=lb[0] not in s.symm)
        if len(lead) == 1 and not rest and pisconst(q):
            # completion: a product with one factor inverted gives the other one
            a_ = lead[0]
            for (l, r) in list(s.rules):
                if len(l) != 2 or len(r) != 1: continue
                (w, k1), = r.items()
                if not pisconst(k1) or len(w) != 1 or w in ((a_,), (lb,)): continue
                for x, bt in ((a_, lw), (s.canon((a_[0], not a_[1])), (s.canon((lb[0], not lb[1])),))):
                    if l[1] == x: s.rule(w + bt, {(l[0],): pconst(1 / (pval(k1) * pval(q)))})
                    if l[0] == x: s.rule(bt + w, {(l[1],): pconst(1 / (pval(k1) * pval(q)))})
        it.assumed.add('Eigen contract: inverse() of a regular matrix A returns B with A*B = B*A = I')
        b.nc = {lw: pconst(1)}
        s.keys[k] = b
        return b

    @within
    def orth_product(s, r, st):
        """a product with orthonormal columns: the columns have unit length (a lemma decided by the rewriting rules)"""
        try:
            p = s.nc(r)
            if len(p) != 1 or len(next(iter(p))) < 2: return
            if s.reduce(s.mul(s.tr(p), p)) != {(): pconst(1)}: return
        except (Unsupported, Budget, RecursionError): return
        st.assume(Forall(r.cols, lambda j: eq(Sum(r.rows, lambda i: mul(r.f(i, j), r.f(i, j))), ONE)))
        s.base = s.base.extend(st.ctx.allfacts()[-1])

    # ---- decomposition objects
    KINDS = {'LLT', 'LDLT', 'PartialPivLU', 'FullPivLU', 'HouseholderQR', 'ColPivHouseholderQR', 'JacobiSVD', 'BDCSVD', 'SelfAdjointEigenSolver', 'EigenSolver'}
    METHOD = {'llt': 'LLT', 'ldlt': 'LDLT', 'lu': 'PartialPivLU', 'partialPivLu': 'PartialPivLU', 'fullPivLu': 'FullPivLU', 'householderQr': 'HouseholderQR',
              'colPivHouseholderQr': 'ColPivHouseholderQR', 'jacobiSvd': 'JacobiSVD', 'bdcSvd': 'BDCSVD'}
    def decompose(s, kind, m, st, node, opts=0):
        it = s.it
        if kind in ('LLT', 'LDLT', 'PartialPivLU', 'SelfAdjointEigenSolver', 'EigenSolver'):
            it.oblige('shape: %s of a square matrix' % kind, eq(m.rows, m.cols), st, node)
        k = ('dec', kind, opts, s.key(m), s.nft(m.cols))
        d = s.keys.get(k)
        if d is None:
            d = {'m': m, 'opts': opts, 'facts': [], 'k': k}
            getattr(s, 'mk_' + kind)(d, m, st, node)
            s.keys[k] = d
        d['sts'] = None
        for f in d['facts']: st.assume(f)
        if kind in ('JacobiSVD', 'BDCSVD'): s.base = s.base.extend(*[f for f in d['facts'] if f not in s.base.allfacts()])    # holds for every matrix
        return Decomp(kind, m, d)
    def small(s, m, st):
        """min(rows, cols), decided where the context decides it"""
        if st.ctx.decide(le(m.rows, m.cols)) : return m.rows
        if st.ctx.decide(le(m.cols, m.rows)): return m.cols
        return ite(lt(m.rows, m.cols), m.rows, m.cols)
    def sq(s, lt_, n):   # orthogonal
        s.rule(((lt_[0], True), (lt_[0], False)), {(): pconst(1)}, False)
        s.rule(((lt_[0], False), (lt_[0], True)), {(): pconst(1)}, False)
    def orth_cols(s, l): s.rule(((l[0], True), (l[0], False)), {(): pconst(1)}, False)
    def word(s, m):
        """the single letter of a matrix given by its elements; None if it is not a letter"""
        p = s.letter(m)
        if len(p) != 1: return None
        (w, q), = p.items()
        return w if pisconst(q) and pval(q) == 1 else None
    def mk_LLT(s, d, m, st, node):
        L, l = s.fresh('llt', m.rows, m.rows, node, st, lambda g, i, j: ite(le(j, i), g(i, j), ZERO))
        a = s.reduce(s.nc(m), expand=False)
        s.rule((l, (l[0], True)), a, False)
        L.nc = {(l,): pconst(1)}; d['L'] = L
        d['facts'] = [Forall(m.rows, lambda i: lt(ZERO, L.f(i, i)))]
        d['facts'] = [implies(s.spd(m), f) for f in d['facts']]
        s.it.assumed.add('Eigen contract: LLT of a symmetric positive definite A gives a lower triangular L with positive diagonal and L*L^T = A; info() reports success exactly for such A')
    mk_LDLT = lambda s, d, m, st, node: None
    mk_FullPivLU = lambda s, d, m, st, node: None
    mk_ColPivHouseholderQR = lambda s, d, m, st, node: None
    def mk_EigenSolver(s, d, m, st, node):
        a = s.reduce(s.nc(m), expand=False)
        if s.tr(a) != a: raise Unsupported('EigenSolver of a matrix that is not symmetric')
        W, _ = s.fresh('ev', m.rows, ONE, node, st); W = Mat(m.rows, ONE, W.f, 'M', 'R', 'col'); d['w'] = W
        V, v = s.fresh('evec', m.rows, m.rows, node, st); V.nc = {(v,): pconst(1)}; d['V'] = V
        Dw = s.word(Mat(m.rows, m.rows, lambda i, j: ite(eq(i, j), W.f(i, ZERO), ZERO), 'M', 'R', 'mat'))
        lead = max(a, key=lambda w: (len(w), w)); q = a[lead]; iq = {(): s.it.N.nf(inv(p_to_term(q)), ROOT, 0)} if not pisconst(q) else {(): pconst(1 / pval(q))}
        rest = {w: p for w, p in a.items() if w != lead}
        s.rule(lead + (v,), s.mul(iq, s.add({(v,) + Dw: pconst(1)}, s.mul(rest, {(v,): pconst(1)}), -1)))
        d['facts'] = [Forall(m.rows, lambda j: eq(Sum(m.rows, lambda i: mul(V.f(i, j), V.f(i, j))), ONE))]
        s.it.assumed.add('Eigen contract: EigenSolver of a symmetric A gives real eigenvalues w and real eigenvectors V of unit length with A*V = V*diag(w)')
    def mk_PartialPivLU(s, d, m, st, node):
        LU, l = s.fresh('plu', m.rows, m.rows, node, st); d['LU'] = LU
        nm, lv = s.site('perm', node)
        p = lambda q: app(nm, lv + (c(q),), 'I'); pi = lambda q: app(nm.replace('perm!', 'pinv!'), lv + (c(q),), 'I')
        N = m.rows
        d['facts'] = [Forall(N, lambda q: and_(le(ZERO, p(q)), lt(p(q), N), eq(pi(p(q)), q))), Forall(N, lambda q: and_(le(ZERO, pi(q)), lt(pi(q), N), eq(p(pi(q)), q)))]
        d['P'] = Mat(N, ONE, lambda i, j: p(i), 'M', 'I', 'col')
        Lw = s.word(s.tri(LU, 5)); Uw = s.word(s.tri(LU, 2)); Pm = s.it.perm_mat(Decomp('perm', d['P'])); Pw = s.word(Pm)
        s.sq(Pw[0], N)
        a = s.reduce(s.nc(m), expand=False)
        s.rule(Lw + Uw, s.mul({Pw: pconst(1)}, a), True)
        sg = app('permsign', (s.key(m),), 'I'); d['sign'] = sg
        det = app('det', (s.key(m),), 'R'); d['det'] = det
        d['facts'] += [or_(eq(sg, ONE), eq(sg, c(-1))), eq(det, mul(sg, Prod(N, lambda i: LU.f(i, i)))) ]
        s.it.assumed.add('Eigen contract: PartialPivLU of A gives a permutation P and unit lower / upper triangular parts L, U of matrixLU() with P*A = L*U; det(A) = det(P) times the product of the diagonal of U')
    def mk_HouseholderQR(s, d, m, st, node):
        QR, l = s.fresh('qr', m.rows, m.cols, node, st); d['QR'] = QR
        Q, q = s.fresh('hhq', m.rows, m.rows, node, st); Q.nc = {(q,): pconst(1)}; d['Q'] = Q
        s.sq(q, m.rows)
        a = s.reduce(s.nc(m), expand=False)
        Rw = s.word(s.tri(QR, 2))
        s.rule((q,) + Rw, a)
        k = s.small(m, st)
        if k is not m.rows:
            J = Mat(m.rows, k, lambda i, j: ite(eq(i, j), ONE, ZERO), 'M', 'R', 'mat')
            T_ = Mat(k, m.cols, lambda i, j: ite(le(i, j), QR.f(i, j), ZERO), 'M', 'R', 'mat')
            Jw, Tw = s.word(J), s.word(T_)
            if Jw and Tw: s.rule((q,) + Jw + Tw, a)
        s.it.assumed.add('Eigen contract: HouseholderQR of A gives an orthogonal householderQ() and an upper triangular part R of matrixQR() with Q*R = A')
    def mk_svd(s, d, m, st, node):
        k = s.small(m, st); o = d['opts']
        full_u, full_v = bool(o & 4), bool(o & 16)
        S, sl = s.fresh('sv', k, ONE, node, st); S = Mat(k, ONE, S.f, 'M', 'R', 'col'); d['s'] = S
        a = s.reduce(s.nc(m), expand=False)
        U, u = s.fresh('svu', m.rows, m.rows if full_u else k, node, st); V, v = s.fresh('svv', m.cols, m.cols if full_v else k, node, st)
        U.nc = {(u,): pconst(1)}; V.nc = {(v,): pconst(1)}; d['U'] = U; d['V'] = V
        for l, X in ((u, U), (v, V)):
            s.orth_cols(l)
            if s.nft(X.rows) is s.nft(X.cols): s.rule(((l[0], False), (l[0], True)), {(): pconst(1)}, False)
        D = Mat(U.cols, V.cols, lambda i, j: ite(eq(i, j), S.f(i, ZERO), ZERO), 'M', 'R', 'mat')
        Dw = s.word(D); d['D'] = D
        if o & 12 and o & 48: d['word'] = ((u,), Dw, ((v[0], True),), a)     # the product form of A
        unit = lambda X: Forall(X.cols, lambda j: eq(Sum(X.rows, lambda i: mul(X.f(i, j), X.f(i, j))), ONE))
        d['facts'] = [unit(U), unit(V), Forall(k, lambda i: le(ZERO, S.f(i, ZERO))), Forall(k, lambda i: Forall(k, lambda j: or_(lt(j, i), le(S.f(j, ZERO), S.f(i, ZERO)))))]
        if Dw:
            if len(a) == 1 and len(next(iter(a))) == 1 and not isinstance(a, tuple) and next(iter(a))[0][0] not in s.expanded:
                # A is a letter of its own: A = U*D*V^T
                (w, q), = a.items(); s.expanded.add(w[0][0])
                s.rule(w, s.scale({(u,) + Dw + ((v[0], True),): pconst(1)}, pconst(1 / pval(q)) if pisconst(q) else None), expand=True)
            elif len(a) > 1 and max(map(len, a)) > 1:
                # a sum of products: its longest word is rewritten to U*D*V^T minus the rest
                lead = max(a, key=lambda w: (len(w), w)); q = a[lead]
                iq = {(): s.it.N.nf(inv(p_to_term(q)), ROOT, 0)} if not pisconst(q) else {(): pconst(1 / pval(q))}
                s.rule(lead, s.mul(iq, s.add({(u,) + Dw + ((v[0], True),): pconst(1)}, {w: p for w, p in a.items() if w != lead}, -1)), expand=True)
            else: s.rule((u,) + Dw + ((v[0], True),), a)
        s.it.assumed.add('Eigen contract: JacobiSVD/BDCSVD of A give U, V with orthonormal columns and non-negative, non-increasing singular values s with U*diag(s)*V^T = A')
    mk_JacobiSVD = mk_BDCSVD = mk_svd
    def mk_SelfAdjointEigenSolver(s, d, m, st, node):
        W, _ = s.fresh('ev', m.rows, ONE, node, st); W = Mat(m.rows, ONE, W.f, 'M', 'R', 'col'); d['w'] = W
        V, v = s.fresh('evec', m.rows, m.rows, node, st); V.nc = {(v,): pconst(1)}; d['V'] = V
        s.sq(v, m.rows)
        Dw = s.word(Mat(m.rows, m.rows, lambda i, j: ite(eq(i, j), W.f(i, ZERO), ZERO), 'M', 'R', 'mat'))
        s.rule((v,) + Dw + ((v[0], True),), s.reduce(s.nc(m)))
        s.it.assumed.add('Eigen contract: SelfAdjointEigenSolver of a symmetric A gives orthogonal V and real w with V*diag(w)*V^T = A')
    def tri(s, m, mode):
        """triangularView: 1 lower, 2 upper, 4 unit diagonal"""
        def f(i, j):
            d = ONE if mode & 4 else m.f(i, j)
            return ite(lt(i, j), m.f(i, j) if mode & 2 else ZERO, ite(lt(j, i), m.f(i, j) if mode & 1 else ZERO, d))
        return Mat(m.rows, m.cols, f, 'M', 'R', 'mat')
    @within
    def method(s, it, name, base, v, args, n, st):
        d = v.extra; k = v.kind; m = v.m
        if name in ('compute',):
            a = it.val(args[0], st); o = it.val(args[1], st) if len(args) > 1 and not it.isdef(args[1]) else c(d.get('opts', 0))
            nd = s.decompose(k, a, st, n, int(cv(o))); it.write(base, nd, st, n); return base
        if name == 'info':
            if k == 'LLT': return ite(s.spd(m), ZERO, ONE)
            return ZERO
        if name == 'solve':
            b = it.val(args[0], st)
            if k in ('LLT',): it.oblige('LLT::solve: the matrix is symmetric positive definite', s.spd(m), st, n)
            inv_ = s.inverse(m, st, n)
            return it.product(inv_, b, st, n)
        if name == 'rows': return m.rows
        if name == 'cols': return m.cols
        if k == 'LLT':
            if name in ('matrixL', 'matrixU'):
                it.oblige('LLT: the factor is used only after success', s.spd(m), st, n)
                return d['L'] if name == 'matrixL' else d['L'].T()
        if k == 'PartialPivLU':
            if name == 'matrixLU': return d['LU']
            if name == 'permutationP': return Decomp('perm', d['P'], {'sign': d['sign']})
            if name == 'determinant': return d['det']
            if name == 'inverse': return s.inverse(m, st, n)
        if k == 'HouseholderQR':
            if name == 'matrixQR': return d['QR']
            if name == 'householderQ': return d['Q']
        if k in ('JacobiSVD', 'BDCSVD'):
            if name == 'matrixU': return d['U']
            if name == 'matrixV': return d['V']
            if name == 'singularValues': return d['s']
        if k in ('SelfAdjointEigenSolver', 'EigenSolver'):
            if name == 'eigenvalues': return d['w']
            if name == 'eigenvectors': return d['V']
        raise Unsupported('%s::%s' % (k, name))
    @within
    def construct(s, it, b, t, n, args, st):
        if b not in s.KINDS: return None
        vals = [it.val(a, st) for a in args if not it.isdef(a)]
        if not vals: raise Unsupported('%s without a matrix' % b)
        o = vals[1] if len(vals) > 1 else ZERO
        if isinstance(o, T) and not isc(o): raise Unsupported('decomposition options')
        return s.decompose(b, vals[0], st, n, int(cv(o)) if isinstance(o, T) else 0)
    @within
    def linalg(s, it, name, base, v, args, n, st):
        if name in s.METHOD:
            o = it.val(args[0], st) if args and not it.isdef(args[0]) else ZERO
            return s.decompose(s.METHOD[name], v, st, n, int(cv(o)))
        if name == 'determinant':
            it.oblige('shape: determinant of a square matrix', eq(v.rows, v.cols), st, n)
            return app('det', (s.key(v),), 'R')
        if name == 'triangularView':
            import re
            mode = re.search(r'TriangularView<.*,\s*(\d+)[uU]*L*>\s*$', n.ctype)
            if not mode: raise Unsupported('triangularView ' + n.ctype)
            return s.tri(v, int(mode.group(1)))
        if name == 'solve':
            # only a triangular view has solve() among the expressions
            b = it.val(args[0], st)
            it.oblige('shape: solve() with a square matrix', eq(v.rows, v.cols), st, n)
            it.oblige('triangular solve(): no zero on the diagonal', Forall(v.rows, lambda i: ne(v.f(i, i), ZERO)), st, n)
            it.oblige('triangular solve(): the matrix is triangular', or_(Forall(v.rows, lambda i: Forall(i, lambda j: eq(v.f(i, j), ZERO))), Forall(v.rows, lambda i: Forall(i, lambda j: eq(v.f(j, i), ZERO)))), st, n)
            it.oblige('shape: solve() operand', eq(v.cols, b.rows), st, n)
            iv = s.inverse(v, st, n, True); N = v.rows
            for up in (True, False):
                e = lambda x, i, j: eq(x.f(i, j) if up else x.f(j, i), ZERO)
                tri = Forall(N, lambda i: Forall(i, lambda j: e(v, i, j))); out = Forall(N, lambda i: Forall(i, lambda j: e(iv, i, j)))
                st.assume(out if s.proves(tri, st.ctx) else implies(tri, out))
            st.assume(Forall(N, lambda i: eq(mul(iv.f(i, i), v.f(i, i)), ONE)))
            it.assumed.add('the inverse of a triangular matrix is triangular of the same kind with reciprocal diagonal')
            return it.product(iv, b, st, n)
        if name == 'selfadjointView': raise Unsupported(name)
        raise Unsupported('linear algebra routine ' + name)
