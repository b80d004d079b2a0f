"""Normaliser: multivariate polynomial normal form over atoms, with finite sums as tensor contractions,
0/1 brackets for conditions, and context-driven simplification; plus the SMT back end and the prover."""
from fractions import Fraction
import itertools, math, time
import z3
from terms import *
import terms as TM

class Budget(Exception): pass

# polynomials: dict mono -> Fraction ; mono = tuple of (atomT, int exp) sorted by atom id ; empty tuple = 1
def pconst(q): return {(): Fraction(q)} if q else {}
def padd(a, b, k=1):
    r = dict(a)
    for m, q in b.items():
        v = r.get(m, 0) + k * q
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pscale(a, k): return {m: q * k for m, q in a.items()} if k else {}
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mnorm(d)
def mnorm(d):
    """normalise a monomial dict; returns sorted tuple or None when it is zero"""
    out = []
    for a, e in d.items():
        if e == 0: continue
        if a.op == 'br':
            out.append((a, 1))
        else: out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out)
MAXMONO = 4000
def pmul(a, b):
    r = {}
    if len(a) * len(b) > 60000: raise Budget('poly')
    for m1, q1 in a.items():
        for m2, q2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + q1 * q2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > MAXMONO: raise Budget('poly')
    return r
def pisconst(p): return not p or (len(p) == 1 and () in p)
def pval(p): return p.get((), Fraction(0))
def mk_br(cnd): return mk('br', (cnd,), 'I')
def atom(t): return {((t, 1),): Fraction(1)}
ONEP = {(): Fraction(1)}

def m_to_term(m, q=Fraction(1)):
    t = None
    for a, e in m:
        x = a if e == 1 else mk('pw', (a, e), 'R' if a.sort == 'R' or e < 0 else 'I')
        t = x if t is None else mk('mul', (t, x), 'R' if t.sort == 'R' or x.sort == 'R' else 'I')
    if t is None: return c(q)
    if q == 1: return t
    return mk('mul', (c(q), t), 'R' if q.denominator != 1 else t.sort)
_ptm = {}
def p_to_term(p):
    if not p: return ZERO
    if pisconst(p): return c(pval(p))
    items = sorted(p.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0]))
    t = None
    for m, q in items:
        x = m_to_term(m, q)
        t = x if t is None else mk('add', (t, x), 'R' if t.sort == 'R' or x.sort == 'R' else 'I')
    _ptm[t] = p
    return t

class Ctx:
    """facts known to hold; decides linear conditions"""
    def __init__(s, facts=(), parent=None):
        s.parent = parent
        s.facts = tuple(facts)
        s.memo = {}
        s.dec = {}
        s.key = next(TM._fresh)
        s._solver = None
        s._kids = {}
        s._all = None
        s._nf = None
    def extend(s, *facts):
        fs = []
        for f in facts:
            if f.op == 'and': fs += list(f.args)
            elif isc(f) and cv(f): continue
            else: fs.append(f)
        if not fs: return s
        k = tuple(fs)
        r = s._kids.get(k)
        if r is None:
            r = Ctx(fs, s)
            s._kids[k] = r
        return r
    def allfacts(s):
        if s._all is None:
            s._all = (s.parent.allfacts() if s.parent else ()) + s.facts
        return s._all
    def nfacts(s):
        """normal forms (under the enclosing context) of facts that mention finite sums"""
        if s._nf is None:
            out = s.parent.nfacts() if s.parent else ()
            for f in s.facts:
                a = f.args[0] if f.op == 'not' else f
                if (a.op in ('lt', 'le', 'eq') and a.args[0].sort in 'IR' and any(x.op == 'sum' or (x.op == 'fn' and x.args[0] == 'exp') for x in subterms(f))) or \
                        (a.op in ('exists', 'or', 'and') and any(x.op in ('sum', 'exists') for x in subterms(f)) and not any(x.op == 'forall' for x in subterms(f))):
                    try:
                        N = NF(time.time() + 5); g = N.p_to_b(N.nfb(f, s.parent or ROOT, 0))
                        if g is not f and not (isc(g) and cv(g)): out += (g,)
                    except Budget: pass
            s._nf = out
        return s._nf
    def solver(s):
        """(z3 solver, literals): the solver holds the quantifier-free linear-ish facts (bool skeleton, opaque atoms) of an enclosing
        context; the literals are the facts added since, passed as assumptions"""
        if s._solver is None:
            own = []; axs = []
            for f in s.facts + (s.nfacts()[len(s.parent.nfacts()):] if s.parent else s.nfacts()):
                r = light(f)
                if r is not None: own.append(r[0]); axs.append(r[1])
            base = s.parent.solver() if s.parent else None
            if base is None or len(base[1]) + len(own) > 20:
                sv = LSolver()
                fs = s.allfacts() + s.nfacts()
                for f in fs:
                    r = light(f)
                    if r is not None: sv.sv.add(r[0]); sv.axioms(r[1])
                s._solver = (sv, ())
            else:
                for x in axs: base[0].axioms(x)
                s._solver = (base[0], base[1] + tuple(own))
        return s._solver
    def inconsistent(s):
        r = s.dec.get('!!')
        if r is None:
            if s.parent and s.parent.dec.get('!!'): r = True
            else:
                sv, lits = s.solver()
                STATS['z3'] += 1
                r = sv.sv.check(*lits) == z3.unsat
            s.dec['!!'] = r
        return r
    def decide(s, cnd):
        """True / False / None"""
        if isc(cnd): return cv(cnd)
        r = s.dec.get(cnd, 0)
        if r != 0: return r
        r = s._decide(cnd)
        s.dec[cnd] = r
        return r
    def _decide(s, cnd):
        fs = s.allfacts()
        if cnd in fs: return True
        n = not_(cnd)
        if n in fs: return False
        if cnd.op in ('exists', 'or', 'and', 'not'):
            nf = s.nfacts()
            if cnd in nf: return True
            if n in nf: return False
        if s.parent and not (any(f.fv for f in s.facts)): pass
        # quick relevance filter
        if not cnd.fv and not appnames(cnd): pass
        rel = cnd.fv
        if not any((f.fv & rel) or not f.fv for f in fs) and not cnd.op == 'br':
            if not _trivial(cnd): return None
        x = light(cnd)
        if x is None: return None
        sv, lits = s.solver()
        b = x[0]; sv.axioms(x[1])
        STATS['z3'] += 1
        t0 = time.time()
        if sv.sv.check(z3.Not(b), *lits) == z3.unsat: r = True
        elif sv.sv.check(b, *lits) == z3.unsat: r = False
        else: r = None
        STATS['z3t'] += time.time() - t0
        return r
class LSolver:
    def __init__(s):
        s.sv = z3.Solver(); s.sv.set('rlimit', 500000); s.sv.set('timeout', 5000); s.have = set()
    def axioms(s, axs):
        for a in axs:
            i = a.get_id()
            if i not in s.have: s.have.add(i); s.sv.add(a)
_light = {}
def light(f):
    """(z3 expression, axioms about its opaque subterms) of a fact; None if it has no quantifier-free translation"""
    r = _light.get(f, 0)
    if r == 0:
        tr = Z3Tr(None, light=True)
        try:
            e = tr.b(f); axs = []
            for a in tr.axioms(): axs.append(a)
            r = (e, axs)
        except NoTr: r = None
        _light[f] = r
    return r
def _trivial(cnd):
    return True
STATS = {'z3': 0, 'z3t': 0.0, 'nonzero': {}, 'leaf': 0}
ROOT = Ctx()
_fd = {}
def fresh_depth(t, d):
    """smallest depth >= d whose canonical bound variable %d does not occur free in t"""
    r = _fd.get(t.fv)
    if r is None:
        r = 0
        for v in t.fv:
            nm = v.args[0]
            if nm[0] == '%':
                k = nm[1:].lstrip('IRUB')
                if k.isdigit(): r = max(r, int(k) + 1)
        _fd[t.fv] = r
    return max(r, d)

# ------------------------------------------------------------------ normal form
class NF:
    def __init__(s, deadline=None): s.deadline = deadline
    def tick(s):
        if s.deadline and time.time() > s.deadline: raise Budget('time')

    def nf(s, t, ctx, d=0):
        if t.fv: d = fresh_depth(t, d)
        key = (t, d)
        r = ctx.memo.get(key)
        if r is None:
            s.tick()
            r = s._nf(t, ctx, d)
            ctx.memo[key] = r
        return r
    def nft(s, t, ctx, d=0):
        if t.sort == 'B': return s.p_to_b(s.nfb(t, ctx, d))
        if t.sort == 'U': return s.nfu(t, ctx, d)
        return p_to_term(s.nf(t, ctx, d))
    def nfu(s, t, ctx, d):
        if t.op in ('c', 'v', 'b'): return t
        if t.op == 'app': return mk('app', (t.args[0],) + tuple(s.nft(a, ctx, d) for a in t.args[1:]), t.sort)
        if t.op == 'ite':
            p = s.nfb(t.args[0], ctx, d)
            if pisconst(p): return s.nfu(t.args[1] if pval(p) else t.args[2], ctx, d)
            cnd = s.p_to_b(p)
            return ite(cnd, s.nfu(t.args[1], ctx, d), s.nfu(t.args[2], ctx, d))
        if t.op == 'enum':
            return s.binder_generic(t, ctx, d)
        if t.op == 'ksm': return s.binder_generic(t, ctx, d)
        return mk(t.op, tuple(s.nft(a, ctx, d) if isinstance(a, T) else a for a in t.args), t.sort)

    def _nf(s, t, ctx, d):
        op = t.op
        if op == 'c': return pconst(cv(t))
        if t.sort == 'B': return s.nfb(t, ctx, d)
        if op in ('v', 'b'): return atom(t)
        if op == 'app':
            return atom(mk('app', (t.args[0],) + tuple(s.nft(a, ctx, d) for a in t.args[1:]), t.sort))
        if op == 'add':
            r = {}
            for a in t.args: r = padd(r, s.nf(a, ctx, d))
            return r
        if op == 'mul':
            r = ONEP
            for a in t.args:
                r = pmul(r, s.nf(a, ctx, d))
                if not r: return r
            return s.clean(r, ctx)
        if op == 'inv': return s.pinv(s.nf(t.args[0], ctx, d), ctx)
        if op == 'pw':
            p = s.nf(t.args[0], ctx, d); e = t.args[1]
            if e < 0: p = s.pinv(p, ctx); e = -e
            r = ONEP
            for _ in range(e): r = pmul(r, p)
            return s.clean(r, ctx)
        if op == 'ite':
            p = s.nfb(t.args[0], ctx, d)
            if pisconst(p): return s.nf(t.args[1] if pval(p) else t.args[2], ctx, d)
            cnd = s.p_to_b(p)
            if t.sort == 'U': raise Budget('U ite')
            a = s.nf(t.args[1], ctx.extend(cnd), d); b = s.nf(t.args[2], ctx.extend(not_(cnd)), d)
            if a == b: return a
            return s.clean(padd(b, pmul(p, padd(a, b, -1))), ctx)
        if op == 'br': return s.nfb(t.args[0], ctx, d)
        if op == 'fn': return s.nffn(t, ctx, d)
        if op == 'sum': return s.nfsum(t, ctx, d)
        if op in ('prod', 'max', 'min', 'argmax', 'argmin'):
            n = s.nft(t.args[0], ctx, d)
            if op in ('argmax', 'argmin') and isc(n) and cv(n) <= 1: return {}
            x = var('%%%d' % d); 
            body = instantiate(t.args[1], x)
            ctx2 = ctx.extend(le(ZERO, x), lt(x, n))
            p = s.nf(body, ctx2, d + 1)
            if op in ('max', 'min'):
                # additive parts independent of the index and positive constants move out
                ind = {m: q for m, q in p.items() if not any(x in a.fv for a, e in m)}
                dep = {m: q for m, q in p.items() if m not in ind}
                if not dep: return ind
                k = Fraction(1); oop = op
                lead = dep[min(dep, key=lambda m: tuple((abstract(a, x).id, e) for a, e in m))]
                k = lead
                if k < 0: oop = 'min' if op == 'max' else 'max'
                dep = pscale(dep, 1 / k)
                b = abstract(p_to_term_c(dep, x), x)
                if isc(n) and cv(n) == 1: return padd(ind, pscale(s.nf(instantiate(b, ZERO), ctx, d), k))
                return padd(ind, {((mk(oop, (n, b), t.sort), 1),): k})
            if op in ('argmax', 'argmin'):
                dep = {m: q for m, q in p.items() if any(x in a.fv for a, e in m)}
                if not dep: return {}
                # a positive factor that does not depend on the index does not move the extremum; neither does a strictly increasing map
                com = None
                for m in dep: com = set(m) if com is None else com & set(m)
                com = {(a, e) for a, e in com if x not in a.fv and s.positive_atom(a, ctx)}
                if com: dep = {tuple(z for z in m if z not in com): q for m, q in dep.items()}
                if len(dep) == 1:
                    (m, q), = dep.items()
                    if q > 0 and m and all(a.op == 'fn' and a.args[0] == 'exp' and e > 0 for a, e in m):
                        u = ZERO
                        for a, e in m: u = add(u, mul(c(e), a.args[1]))
                        return s.nf(mk(op, (n, abstract(u, x)), 'I'), ctx, d)
                k = dep[min(dep, key=lambda m: tuple((abstract(a, x).id, e) for a, e in m))]
                oop = op if k > 0 else ('argmin' if op == 'argmax' else 'argmax')
                dep = pscale(dep, 1 / k)
                return atom(mk(oop, (n, abstract(p_to_term_c(dep, x), x)), 'I'))
            if op == 'prod':     # peel the last factors off: prod{m+k} = prod{m} * f(m) ... f(m+k-1)
                np_ = s.nf(n, ctx, d); k = np_.get((), 0)
                if k > 0 and k.denominator == 1 and k <= 4:
                    m = p_to_term({y: q for y, q in np_.items() if y != ()}) if len(np_) > 1 else ZERO
                    if isc(m) or ctx.decide(le(ZERO, m)):
                        r = s.nf(mk(op, (m, t.args[1]), t.sort), ctx, d) if not isc(m) else pconst(1)
                        for z in range(int(k)): r = pmul(r, s.nf(instantiate(t.args[1], add(m, c(z))), ctx, d))
                        return s.clean(r, ctx)
                if isc(n) and cv(n) <= 0: return pconst(1)
            b = abstract(p_to_term_c(p, x), x)
            return atom(mk(op, (n, b), t.sort))
        if op in ('nth', 'ksm', 'card', 'enum'): return atom(s.binder_generic(t, ctx, d))
        if op in ('idiv', 'imod'):
            a = s.nf(t.args[0], ctx, d); b = s.nf(t.args[1], ctx, d)
            ta, tb = p_to_term(a), p_to_term(b)
            if isc(ta) and isc(tb) and cv(tb) != 0:
                return pconst(cv(ta) // cv(tb) if op == 'idiv' else cv(ta) % cv(tb))
            # (x*b + r) div b with 0<=r<b
            q, r = s.split_mult(a, b)
            if q is not None:
                rt = p_to_term(r)
                if ctx.decide(s.cmp_term('le', pconst(0), r)) and ctx.decide(s.cmp_term('lt', r, b)):
                    return q if op == 'idiv' else r
                if q and ctx.decide(lt(ZERO, tb)):   # (x*b + r) div b = x + r div b
                    o = atom(mk('idiv', (rt, tb), 'I'))
                    return padd(q, o) if op == 'idiv' else padd(r, pmul(b, o), -1)
            if op == 'imod':   # a mod b = a - b*(a div b)
                return padd(a, pmul(b, atom(mk('idiv', (ta, tb), 'I'))), -1)
            return atom(mk('idiv', (ta, tb), 'I'))
        if op == 'floor':
            a = s.nf(t.args[0], ctx, d)
            if all(m == () or all(x.sort == 'I' and e > 0 for x, e in m) for m in a) and all(q.denominator == 1 for q in a.values()):
                return a
            if pisconst(a): return pconst(math.floor(pval(a)))
            # integer part out
            ip = {m: q for m, q in a.items() if q.denominator == 1 and all(x.sort == 'I' and e > 0 for x, e in m)}
            rest = {m: q for m, q in a.items() if m not in ip}
            return padd(ip, atom(mk('floor', (p_to_term(rest),), 'I')))
        return atom(mk(op, tuple(s.nft(a, ctx, d) if isinstance(a, T) else a for a in t.args), t.sort))

    def split_mult(s, a, b):
        """a = q*b + r with b a single monomial, r the part not divisible"""
        if len(b) != 1: return None, None
        (mb, qb), = b.items()
        q = {}; r = {}
        db = dict(mb)
        for m, k in a.items():
            dm = dict(m)
            if mb and all(dm.get(x, 0) >= e for x, e in db.items()) and (k / qb).denominator == 1:
                for x, e in db.items(): dm[x] -= e
                q[mnorm(dm)] = k / qb
            else: r[m] = k
        if not mb: return None, None
        return q, r

    def binder_generic(s, t, ctx, d):
        bp = BIND[t.op]
        vs = 'I'
        d = fresh_depth(t, d)
        if t.op == 'card': vs = t.args[1]
        elif t.op == 'enum': vs = t.sort
        x = var('%%%d' % d if vs == 'I' else '%%%s%d' % (vs, d), vs)
        args = list(t.args)
        for i, a in enumerate(args):
            if isinstance(a, T) and i != bp: args[i] = s.nft(a, ctx, d)
        ctx2 = ctx
        if t.op == 'ksm': ctx2 = ctx.extend(le(ZERO, x), lt(x, args[0]))
        if t.op == 'nth': ctx2 = ctx.extend(le(ZERO, x))
        b = instantiate(t.args[bp], x)
        b = s.nft(b, ctx2, d + 1)
        if b.sort in 'IR' and b in _ptm: b = p_to_term_c(_ptm[b], x)
        args[bp] = abstract(b, x)
        return mk(t.op, tuple(args), t.sort)

    def clean(s, p, ctx):
        """drop contradictory / decided bracket products, even powers of sqrt"""
        bad = [m for m in p if any(a.op == 'fn' and a.args[0] == 'sqrt' and (e >= 2 or e <= -2) for a, e in m)]
        for m in bad:
            q = p.pop(m)
            r = {(): q}
            for a, e in m:
                if a.op == 'fn' and a.args[0] == 'sqrt' and abs(e) >= 2:
                    h = int(e / 2)
                    base = s.nf(a.args[1], ctx, 0)
                    if h < 0: base = s.pinv(base, ctx)
                    for _ in range(abs(h)): r = pmul(r, base)
                    if e - 2 * h: r = pmul(r, {((a, e - 2 * h),): Fraction(1)})
                else: r = pmul(r, {((a, e),): Fraction(1)})
            p = padd(p, s.clean(r, ctx))
        out = None
        for m in list(p):
            brs = [a for a, e in m if a.op == 'br']
            if len(brs) >= 2:
                z = s.brs_contra(brs, ctx)
                if z:
                    if out is None: out = dict(p)
                    out.pop(m)
        return p if out is None else out
    def brs_contra(s, brs, ctx):
        # cheap pairwise: mutually exclusive
        key = ('contra', tuple(brs))
        r = ctx.dec.get(key)
        if r is None:
            c2 = ctx.extend(*[b.args[0] for b in brs])
            r = c2.inconsistent()
            ctx.dec[key] = r
        return r

    def pinv(s, p, ctx):
        if not p: return atom(mk('inv', (ZERO,), 'R'))
        if len(p) == 1:
            (m, q), = p.items()
            for a, e in m:
                if e > 0: STATS['nonzero'][a] = 1
                if a.op == 'br': # 1/[c]: keep opaque
                    return {((mk('inv', (p_to_term(p),), 'R'), 1),): Fraction(1)}
            return {tuple((a, -e) for a, e in m): 1 / q}
        # content
        common = None
        for m in p:
            dm = {a: e for a, e in m if a.op != 'br'}
            if common is None: common = dm
            else: common = {a: min(e, dm.get(a, 0)) if True else 0 for a, e in common.items() if a in dm} if True else common
        common = {a: e for a, e in (common or {}).items() if e}
        # negative exponents present only in some monomials: also pull out
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0: neg[a] = min(neg.get(a, 0), e)
        for a, e in neg.items():
            common[a] = min(common.get(a, 0), e)
        cm = mnorm(common)
        pm = {}
        for m, q in p.items():
            dm = dict(m)
            for a, e in cm: dm[a] = dm.get(a, 0) - e
            pm[mnorm(dm)] = q
        lead = pm[min(pm, key=lambda m: tuple((a.id, e) for a, e in m))]
        # prefer constant-free leading
        pm = pscale(pm, 1 / lead)
        t = p_to_term(pm)
        if t.op == 'add':
            base = mk('poly', (t,), t.sort)
            STATS['nonzero'][base] = 1
            m2 = mmul(tuple((a, -e) for a, e in cm), ((base, -1),))
            return {m2: 1 / lead}
        return s.pinv(p, ctx)

    # ---- functions
    def positive_atom(s, a, ctx):
        if a.op == 'fn' and a.args[0] == 'exp': return True
        if a.op == 'sum':
            b = a.args[1]
            if all(f.op == 'fn' and f.args[0] == 'exp' for f in (b.args if b.op == 'mul' else (b,))): return bool(ctx.decide(lt(ZERO, a.args[0])) or ctx.decide(le(ONE, a.args[0])))
        return False

    def nffn(s, t, ctx, d):
        f = t.args[0]
        if f == 'exp':
            p = s.nf(t.args[1], ctx, d)
            r = {}
            for m, q in p.items():
                if m == ():
                    if q.denominator == 1 and False: pass
                    a = mk('fn', ('exp', c(Fraction(1, q.denominator))), 'R'); e = q.numerator
                else:
                    # log atoms: exp(k*log x) = x^k
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'log' and q.denominator == 1:
                        base = s.nf(m[0][0].args[1], ctx, d)
                        if q < 0: base = s.pinv(base, ctx)
                        res = ONEP
                        for _ in range(abs(int(q))): res = pmul(res, base)
                        if len(res) == 1:
                            (mm, qq), = res.items()
                            if qq == 1:
                                for a2, e2 in mm: r[a2] = r.get(a2, 0) + e2
                                continue
                    a = mk('fn', ('exp', m_to_term(m, Fraction(1, q.denominator))), 'R'); e = q.numerator
                r[a] = r.get(a, 0) + e
            return {mnorm(r): Fraction(1)}
        if f == 'log':
            p = s.nf(t.args[1], ctx, d)
            if len(p) == 1:
                (m, q), = p.items()
                if q > 0:
                    res = {} if q == 1 else atom(mk('fn', ('log', c(q)), 'R'))
                    rest = []
                    for a, e in m:
                        if a.op == 'fn' and a.args[0] == 'exp':
                            res = padd(res, s.nf(a.args[1], ctx, d), e)
                        elif s.positive(a, ctx):
                            if a.op == 'fn' and a.args[0] == 'sqrt':
                                res = padd(res, s.nf(log(a.args[1]), ctx, d), Fraction(e, 2))
                            else:
                                base = a.args[0] if a.op == 'poly' else a
                                res = padd(res, {((mk('fn', ('log', base), 'R'), 1),): Fraction(1)}, e)
                        else: rest.append((a, e))
                    if rest:
                        if len(rest) == 1 and rest[0][1] < 0 and rest[0][1] == -1:
                            # log(1/x) = -log x (both undefined for x<=0 in the real reading)
                            a = rest[0][0]
                            base = a.args[0] if a.op == 'poly' else a
                            res = padd(res, atom(mk('fn', ('log', base), 'R')), -1)
                        else:
                            res = padd(res, atom(mk('fn', ('log', m_to_term(tuple(rest))), 'R')))
                    return res
            # factor content of a sum (e.g. exp(-m) * Sum) so log splits
            if len(p) > 1:
                iv = s.pinv(p, ctx)   # single monomial
                if len(iv) == 1:
                    (m, q), = iv.items()
                    if len(m) > 1 or q != 1:
                        # log(p) = -log(1/p) if factors positive
                        if q > 0 and all(s.positive(a, ctx) for a, e in m):
                            res = {}
                            if q != 1: res = atom(mk('fn', ('log', c(1 / q)), 'R'))
                            for a, e in m:
                                if a.op == 'fn' and a.args[0] == 'exp': res = padd(res, s.nf(a.args[1], ctx, d), -e)
                                else: res = padd(res, atom(mk('fn', ('log', a.args[0] if a.op == 'poly' else a), 'R')), -e)
                            return res
            if pisconst(p) and pval(p) == 1: return {}
            return atom(mk('fn', ('log', p_to_term(p)), 'R'))
        if f == 'sqrt':
            p = s.nf(t.args[1], ctx, d)
            if pisconst(p):
                q = pval(p)
                if q >= 0:
                    n, dn = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if n * n == q.numerator and dn * dn == q.denominator: return pconst(Fraction(n, dn))
            if len(p) == 1:
                (m, q), = p.items()
                out = {}; restm = []
                num = Fraction(1)
                for a, e in m:
                    if s.positive(a, ctx) or (a.op == 'v' and False):
                        if e % 2 == 0: out[a] = e // 2; continue
                        restm.append((a, e)); continue
                    restm.append((a, e))
                if out:
                    rest = {tuple(restm): q}
                    return pmul({mnorm(out): Fraction(1)}, s.nf(sqrt(p_to_term(rest)), ctx, d) if restm or q != 1 else ONEP)
            return atom(mk('fn', ('sqrt', p_to_term(p)), 'R'))
        args = tuple(s.nft(a, ctx, d) for a in t.args[1:])
        if f == 'pow' and isc(args[1]) and cv(args[1]).denominator == 1:
            return s.nf(ipow(args[0], int(cv(args[1]))), ctx, d)
        return atom(mk('fn', (f,) + args, t.sort))

    def positive(s, a, ctx, depth=0):
        """syntactic/semantic sufficient condition for a > 0"""
        key = ('pos', a)
        r = ctx.dec.get(key)
        if r is not None: return r
        r = s._positive(a, ctx, depth)
        ctx.dec[key] = r
        return r
    def _positive(s, a, ctx, depth):
        if depth > 6: return False
        op = a.op
        if op == 'c': return cv(a) > 0
        if op == 'fn':
            if a.args[0] == 'exp': return True
            if a.args[0] == 'sqrt': return s.positive(a.args[1], ctx, depth + 1)
        if op == 'poly': return s.positive(a.args[0], ctx, depth + 1)
        if op == 'mul': 
            if all(s.positive(x, ctx, depth + 1) for x in a.args): return True
        if op == 'pw' and s.positive(a.args[0], ctx, depth + 1): return True
        if op == 'add' and all(s.nonneg(x, ctx, depth + 1) for x in a.args) and any(s.positive(x, ctx, depth + 1) for x in a.args): return True
        if op == 'sum':
            x = var('%p' + str(depth))
            c2 = ctx.extend(le(ZERO, x), lt(x, a.args[0]))
            if ctx.decide(lt(ZERO, a.args[0])) and s.positive(instantiate(a.args[1], x), c2, depth + 1): return True
        if op == 'max':
            x = var('%p' + str(depth))
            if s.positive(instantiate(a.args[1], x), ctx.extend(le(ZERO, x), lt(x, a.args[0])), depth + 1): return True
        return ctx.decide(lt(ZERO, a)) is True
    def nonneg(s, a, ctx, depth=0):
        if depth > 6: return False
        op = a.op
        if op == 'c': return cv(a) >= 0
        if op == 'br': return True
        if op == 'pw' and a.args[1] % 2 == 0: return True
        if op == 'fn' and a.args[0] in ('exp', 'sqrt'): return True
        if op == 'mul' and all(s.nonneg(x, ctx, depth + 1) for x in a.args): return True
        if op == 'pw' and s.nonneg(a.args[0], ctx, depth + 1): return True
        if op == 'poly': return s.nonneg(a.args[0], ctx, depth + 1)
        if op == 'add' and all(s.nonneg(x, ctx, depth + 1) for x in a.args): return True
        if op == 'sum':
            x = var('%p' + str(depth))
            if s.nonneg(instantiate(a.args[1], x), ctx.extend(le(ZERO, x), lt(x, a.args[0])), depth + 1): return True
        if op == 'max' or op == 'min':
            x = var('%p' + str(depth))
            if s.nonneg(instantiate(a.args[1], x), ctx.extend(le(ZERO, x), lt(x, a.args[0])), depth + 1): return True
        return ctx.decide(le(ZERO, a)) is True

    # ---- sums
    def nfsum(s, t, ctx, d):
        n = s.nf(t.args[0], ctx, d)
        nt = p_to_term(n)
        if isc(nt):
            k = cv(nt)
            if k <= 0: return {}
            if k <= 4:
                r = {}
                for i in range(int(k)): r = padd(r, s.nf(instantiate(t.args[1], c(i)), ctx, d))
                return r
        # peel constant offset of the upper bound
        k = n.get((), Fraction(0))
        if k and k.denominator == 1 and abs(k) <= 3 and not isc(nt):
            base = dict(n); base.pop(())
            bt = p_to_term(base)
            if k > 0 and ctx.decide(le(ZERO, bt)):
                r = s.nf(mk('sum', (bt, t.args[1]), t.sort), ctx, d)
                for i in range(int(k)): r = padd(r, s.nf(instantiate(t.args[1], p_to_term(padd(base, pconst(i)))), ctx, d))
                return r
            if k < 0 and ctx.decide(le(c(-k), bt)):
                r = s.nf(mk('sum', (bt, t.args[1]), t.sort), ctx, d)
                for i in range(1, int(-k) + 1): r = padd(r, s.nf(instantiate(t.args[1], p_to_term(padd(base, pconst(-i)))), ctx, d), -1)
                return r
        nneg = ctx.decide(le(ZERO, nt))
        x = var('%%%d' % d)
        ctx2 = ctx.extend(le(ZERO, x), lt(x, nt))
        p = s.nf(instantiate(t.args[1], x), ctx2, d + 1)
        r = s.sum_nth(p, n, x, ctx, d)
        if r is not None: return r
        r = {}
        for m, q in p.items():
            r = padd(r, s.summono(m, x, nt, n, nneg, ctx, ctx2, d), q)
        return r
    def sum_nth(s, p, n, x, ctx, d):
        """sum over r < #{j<K: sel j} of g(nth(sel, r))  =  sum over j<K of [sel j] g(j)"""
        nth = None
        for m in p:
            for a, e in m:
                if x not in a.fv: continue
                for y in subterms(a):
                    if y.op == 'nth' and y.args[1] is x and y.nb == 0: nth = y
        if nth is None or x in nth.args[0].fv: return None
        body = nth.args[0]
        bt = p_to_term(p)
        j = var('%%%d' % (d + 1))
        b2 = repl_(bt, nth, j)
        if x in b2.fv: return None
        cands = []
        for m in n:
            for a, e in m:
                if a.op == 'sum' and a.args[0] not in cands: cands.append(a.args[0])
        for K in cands:
            if ctx.decide(le(ZERO, K)) is not True: continue
            cnt = s.nf(mk('sum', (K, mk_br(body)), 'I'), ctx, d)
            if not padd(cnt, n, -1):
                inner = mk('mul', (mk_br(instantiate(body, j)), b2), b2.sort)
                return s.nf(mk('sum', (K, abstract(inner, j)), b2.sort), ctx, d)
        return None
    def summono(s, m, x, nt, n, nneg, ctx, ctx2, d):
        dep = [(a, e) for a, e in m if x in a.fv]
        ind = tuple((a, e) for a, e in m if x not in a.fv)
        if not dep:
            if nneg: return pmul({ind: Fraction(1)}, n)
            return pmul({ind: Fraction(1)}, s.nf(ite(lt(ZERO, nt), nt, ZERO), ctx, d))
        # prenex: open inner sums
        idx = [(x, nt)]
        facs = []
        fresh_d = d + 1
        work = list(dep)
        for a, e in work:
            if a.op == 'sum' and e > 0 and e <= 3:
                for _ in range(e):
                    b = a
                    # nested
                    while b.op == 'sum':
                        y = var('%%%d' % fresh_d); fresh_d += 1
                        idx.append((y, b.args[0]))
                        b = instantiate(b.args[1], y)
                    fl = flat_factors(b)
                    if fl is None:
                        # polynomial body: cannot be flattened, treat atom as opaque
                        facs.append((a, 1)); 
                        raise Budget('nonmono sum body')
                    facs += fl
            else: facs.append((a, e))
        return pmul({ind: Fraction(1)}, s.contract(idx, facs, ctx, d))
    def contract(s, idx, facs, ctx, d):
        """canonical form of sum over idx (list of (var, range)) of product of factors"""
        # merge equal factors
        dd = {}
        for a, e in facs: dd[a] = dd.get(a, 0) + e
        facs = list(mnorm(dd))
        # delta elimination / range absorption
        for k, (x, n) in enumerate(idx):
            for a, e in facs:
                if a.op == 'br' and x in a.fv and a.args[0].op == 'eq':
                    sol = solve_lin(a.args[0], x)
                    if sol is None: continue
                    others = [(y, m) for y, m in idx if y is not x]
                    # substitute x := sol
                    coef = ONEP
                    newf = [(b, f) for b, f in facs if b is not a]
                    # the substituted product is a general expression: rebuild and renormalise
                    expr = ONE
                    for b, f in newf:
                        expr = mul(expr, b if f == 1 else mk('pw', (b, f), 'R'))
                    expr = mul(expr, br(and_(le(ZERO, x), lt(x, n))))
                    expr = subst(expr, {x: sol})
                    others2 = [(y, subst(m, {x: sol})) for y, m in others]
                    # order: innermost last
                    body = expr
                    for y, m in reversed(others2):
                        body = bindv('sum', m, y, body)
                    return s.nf(body, ctx, d)
        for k, (x, n) in enumerate(idx):
            for a, e in facs:
                if a.op == 'br' and x in a.fv and a.args[0].op in ('lt', 'le'):
                    bnd = bound_of(a.args[0], x)   # ('ub', T) : x < T   or ('lb', T): x >= T
                    if bnd is None: continue
                    kind, b = bnd
                    if any(y in b.fv for y, m in idx): continue
                    if any(x in m.fv for y, m in idx): continue
                    if kind == 'ub':
                        if ctx.decide(le(b, n)) and ctx.decide(le(ZERO, b)): 
                            idx2 = list(idx); idx2[k] = (x, s.nft(b, ctx, d))
                            return s.recontract(idx2, [(f, g) for f, g in facs if f is not a], ctx, d)
                        if ctx.decide(le(b, ZERO)): return {}
                    else:
                        # x >= b : sum_{x<n} - sum_{x<b}   when 0<=b<=n
                        if ctx.decide(le(ZERO, b)) and ctx.decide(le(b, n)):
                            rest = [(f, g) for f, g in facs if f is not a]
                            idx2 = list(idx); idx2[k] = (x, s.nft(b, ctx, d))
                            return padd(s.recontract(list(idx), rest, ctx, d), s.recontract(idx2, rest, ctx, d), -1)
        # connected components
        vars_ = [x for x, n in idx]
        vs = set(vars_)
        parent = {x: x for x in vars_}
        def find(x):
            while parent[x] is not x: x = parent[x]
            return x
        def union(xs):
            xs = list(xs)
            for y in xs[1:]: parent[find(y)] = find(xs[0])
        free = []
        for a, e in facs:
            q = a.fv & vs
            if q: union(q)
            else: free.append((a, e))
        for x, n in idx:
            q = n.fv & vs
            if q: union(list(q) + [x])
        comps = {}
        for x, n in idx: comps.setdefault(find(x), []).append((x, n))
        res = {mnorm(dict(free)): Fraction(1)}
        for r, ix in comps.items():
            cv_ = {x for x, n in ix}
            fs = [(a, e) for a, e in facs if a.fv & cv_]
            if not fs:
                pr = ONEP
                if len(ix) == 1:
                    pr = s.nf(ix[0][1], ctx, d)
                    if not ctx.decide(le(ZERO, ix[0][1])): pr = s.nf(ite(lt(ZERO, ix[0][1]), ix[0][1], ZERO), ctx, d)
                    res = pmul(res, pr); continue
            res = pmul(res, atom(canon_sum(ix, fs)))
        return res
    def recontract(s, idx, facs, ctx, d):
        """after changing a bound re-normalise through the generic path"""
        expr = ONE
        for b, f in facs: expr = mul(expr, b if f == 1 else mk('pw', (b, f), 'R'))
        for y, m in reversed(idx): expr = bindv('sum', m, y, expr)
        return s.nf(expr, ctx, d)

    # ---- booleans as 0/1 polynomials
    def nfb(s, t, ctx, d):
        if t.fv: d = fresh_depth(t, d)
        key = ('b', t, d)
        r = ctx.memo.get(key)
        if r is None:
            r = s._nfb(t, ctx, d)
            ctx.memo[key] = r
        return r
    def _nfb(s, t, ctx, d):
        op = t.op
        if op == 'c': return ONEP if cv(t) else {}
        if op == 'not': return padd(ONEP, s.nfb(t.args[0], ctx, d), -1)
        if op == 'and':
            r = ONEP; c2 = ctx
            for a in t.args:
                r = pmul(r, s.nfb(a, c2, d))
                if not r: return r
            return s.clean(r, ctx)
        if op == 'or':
            r = ONEP
            for a in t.args:
                r = pmul(r, padd(ONEP, s.nfb(a, ctx, d), -1))
                if not r: return ONEP
            return padd(ONEP, s.clean(r, ctx), -1)
        if op in ('lt', 'le', 'eq'):
            a, b = t.args
            if op == 'eq' and a.sort == 'B':
                pa, pb = s.nfb(a, ctx, d), s.nfb(b, ctx, d)
                # a==b : 1 - a - b + 2ab
                return padd(padd(padd(ONEP, pa, -1), pb, -1), pmul(pa, pb), 2)
            if a.sort == 'U' or b.sort == 'U':
                ua, ub = s.nfu(a, ctx, d), s.nfu(b, ctx, d)
                cnd = {'eq': eq, 'lt': lt, 'le': le}[op](ua, ub)
                if op == 'le': return padd(ONEP, s.brp(lt(ub, ua), ctx), -1)
                return s.brp(cnd, ctx)
            p = padd(s.nf(a, ctx, d), s.nf(b, ctx, d), -1)
            inf = [m for m in p if any(any(v.args[0] == 'INFTY' for v in x.fv if v.op == 'v') for x, _ in m)]
            if len(inf) == 1 and len(inf[0]) == 1 and inf[0][0][0].op == 'v' and inf[0][0][1] == 1:
                q = p[inf[0]]
                return {} if op == 'eq' else ONEP if q < 0 else {}
            if len(inf) == 1 and op != 'le' and all(e == 1 and (x.op == 'br' or (x.op == 'v' and x.args[0] == 'INFTY')) for x, e in inf[0]):
                # an infinite term under a condition
                q = p[inf[0]]; cnd = and_(*[x.args[0] for x, e in inf[0] if x.op == 'br'])
                rest = p_to_term({m: k for m, k in p.items() if m != inf[0]})
                pc = s.nfb(cnd, ctx, d)
                c2 = ctx.extend(not_(cnd))
                r = s.clean(pmul(padd(ONEP, pc, -1), s.nfb({'lt': lt, 'eq': eq}[op](rest, ZERO), c2, d)), ctx)
                return r if op == 'eq' or q > 0 else padd(r, pc)
            if len(inf) == 1 and op == 'le' and len(inf[0]) > 1: return padd(ONEP, s.nfb(lt(b, a), ctx, d), -1)
            if op == 'lt': return s.lt0(p, ctx)
            if op == 'eq': return s.eq0(p, ctx)
            # a<=b: 1-[b<a]
            return padd(ONEP, s.lt0(pscale(p, -1), ctx), -1)
        if op in ('exists', 'forall'):
            n = s.nft(t.args[0], ctx, d)
            x = var('%%%d' % d)
            ctx2 = ctx.extend(le(ZERO, x), lt(x, n))
            p = s.nfb(instantiate(t.args[1], x), ctx2, d + 1)
            if op == 'forall': p = padd(ONEP, p, -1)
            if not p: r = {}
            elif p == ONEP: r = s.nfb(lt(ZERO, n), ctx, d)
            elif n.op == 'card' and s.occurs(n, p, x, d) is not None: r = s.nfb(s.occurs(n, p, x, d), ctx, d)
            else: r = s.brp(mk('exists', (n, abstract(s.p_to_b(p), x)), 'B'), ctx)
            return r if op == 'exists' else padd(ONEP, r, -1)
        if op in ('app',):
            return s.brp(mk('app', (t.args[0],) + tuple(s.nft(a, ctx, d) for a in t.args[1:]), 'B'), ctx)
        if op == 'ite':
            p = s.nfb(t.args[0], ctx, d)
            a = s.nfb(t.args[1], ctx, d); b = s.nfb(t.args[2], ctx, d)
            return padd(b, pmul(p, padd(a, b, -1)))
        return s.brp(t, ctx)
    def occurs(s, n, p, x, d):
        """exists i < card P. enum(P, i) = v   is   P(v)"""
        e = s.p_to_b(p)
        if e.op != 'eq' or n.args[1] != 'I': return None
        q = s.nf(sub(*e.args), ROOT, d + 1)
        dep = [m for m in q if any(x in a.fv for a, _ in m)]
        if len(dep) != 1 or len(dep[0]) != 1 or abs(q[dep[0]]) != 1: return None
        (y, k), = dep[0]
        if k != 1 or y.op != 'enum' or y.args[1] is not x or x in y.args[0].fv: return None
        z = var('%oc')
        if padd(s.nfb(instantiate(y.args[0], z), ROOT, 0), s.nfb(instantiate(n.args[0], z), ROOT, 0), -1): return None
        v = p_to_term({m: -c0 / q[dep[0]] for m, c0 in q.items() if m != dep[0]})
        return instantiate(n.args[0], v)
    def brp(s, cnd, ctx):
        if isc(cnd): return ONEP if cv(cnd) else {}
        r = ctx.decide(cnd)
        if r is True: return ONEP
        if r is False: return {}
        if cnd.op == 'eq' and s.nonzero_extremum(cnd, ctx): return {}
        return atom(mk_br(cnd))
    def nonzero_extremum(s, cnd, ctx):
        """W(argmax |W|) = 0 would make all W(i) vanish, against a fact"""
        t = cnd.args[1] if cnd.args[0] is ZERO else cnd.args[0] if cnd.args[1] is ZERO else None
        if t is None or t.op not in ('app', 'sum'): return False
        am = {a for a in subterms(t) if a.op == 'argmax' and not a.nb}
        if len(am) != 1: return False
        key = ('nzx', cnd)
        if key in ctx.dec: return ctx.dec[key]
        ctx.dec[key] = False
        am = next(iter(am)); n, body = am.args
        g = lambda x: replace(t, {am: x})
        x = var('%nz'); ctx2 = ctx.extend(le(ZERO, x), lt(x, n))
        if padd(s.nf(abs_(g(x)), ctx2, 0), s.nf(instantiate(body, x), ctx2, 0), -1): return False
        names = {y.args[0] for y in subterms(g(x)) if y.op == 'app'}
        ground = {y for a in subterms(t) if a.op == 'app' for y in a.args[1:] if y.op != 'c' and y.sort == 'I' and not y.nb and y is not am}
        for f in ctx.allfacts():
            if not names <= {y.args[0] for y in subterms(f) if y.op == 'app'}: continue
            insts = [f]
            if f.op == 'not' and f.args[0].op == 'exists':
                f = mk('forall', (f.args[0].args[0], not_(f.args[0].args[1])), 'B')
            if f.op == 'forall':
                insts = []
                for q in ground:
                    if ctx.decide(le(ZERO, q)) and ctx.decide(lt(q, f.args[0])): insts.append(instantiate(f.args[1], q))
            for h in insts:
                z = s.kill(h, g, n, ctx)
                if z is None: continue
                if not s.nfb(z, ctx, 0): ctx.dec[key] = True; return True
        return False
    def kill(s, h, g, n, ctx):
        """h, with the squares of g(i) summed over the range n replaced by zero"""
        hit = [0]
        def go(u):
            if u.op == 'sum' and len(u.args) == 2 and u.args[0] is n:
                x = var('%nz'); ctx2 = ctx.extend(le(ZERO, x), lt(x, n))
                if not padd(s.nf(instantiate(u.args[1], x), ctx2, 0), s.nf(mul(g(x), g(x)), ctx2, 0), -1): hit[0] = 1; return ZERO
                return u
            if u.op in ('and', 'or', 'not', 'eq', 'le', 'lt'):
                return {'and': and_, 'or': or_, 'not': not_, 'eq': eq, 'le': le, 'lt': lt}[u.op](*[go(a) if isinstance(a, T) else a for a in u.args])
            return u
        r = go(h)
        return r if hit[0] else None
    def p_to_b(s, p):
        """boolean term for a 0/1 polynomial"""
        if not p: return FALSE
        if p == ONEP: return TRUE
        if len(p) == 1:
            (m, q), = p.items()
            if q == 1 and all(a.op == 'br' for a, e in m): return and_(*[a.args[0] for a, e in m])
        q = padd(ONEP, p, -1)
        if len(q) == 1:
            (m, k), = q.items()
            if k == 1 and all(a.op == 'br' for a, e in m): return not_(and_(*[a.args[0] for a, e in m]))
        # sum of disjoint monomials (heuristic or): keep as equation
        return mk('eq', (p_to_term(p), ONE), 'B')
    def isint(s, p):
        return all(q.denominator == 1 and all(a.sort == 'I' and e > 0 for a, e in m) for m, q in p.items())
    def intscale(s, p):
        if all(all(a.sort == 'I' and e > 0 for a, e in m) for m in p):
            L = 1
            for q in p.values(): L = L * q.denominator // math.gcd(L, q.denominator)
            return pscale(p, L)
        return None
    def orient(s, p):
        """(sign, primitive p) with deterministic leading coefficient > 0"""
        ms = [m for m in p if m != ()]
        lead = p[min(ms, key=lambda m: tuple((abs_id(a), e) for a, e in m))]
        return (1 if lead > 0 else -1), lead
    def posscale(s, p, ctx):
        """multiply by positive denominators so that comparisons are polynomial"""
        for _ in range(6):
            den = None
            for m in p:
                for a, e in m:
                    if e < 0 and s.positive(a, ctx): den = (a, -e); break
                if den: break
            if not den: break
            mult = {(den,): Fraction(1)}
            if den[0].op == 'poly':
                pp = {}
                base = _ptm.get(den[0].args[0]) or s.nf(den[0].args[0], ctx, 0)
                for m, q in p.items():
                    dm = dict(m); k = dm.pop(den[0], 0) + den[1]
                    r = {mnorm(dm): q}
                    for _ in range(k): r = pmul(r, base)
                    pp = padd(pp, r)
                p = pp
            else: p = pmul(p, mult)
        return p
    def unexp(s, p, ctx):
        """q*(exp u - exp v) has the sign of q*(u - v)"""
        if len(p) != 2: return None
        (m1, q1), (m2, q2) = p.items()
        if q1 != -q2 or any(a.op != 'fn' or a.args[0] != 'exp' for m in (m1, m2) for a, e in m): return None
        u = ZERO
        for m, q in p.items():
            for a, e in m: u = add(u, mul(c(e if q > 0 else -e), a.args[1]))
        return s.nf(u, ctx, 0)
    def lt0(s, p, ctx):
        """[p < 0]"""
        if pisconst(p): return ONEP if pval(p) < 0 else {}
        if any(e < 0 for m in p for a, e in m): p = s.posscale(p, ctx)
        if pisconst(p): return ONEP if pval(p) < 0 else {}
        u = s.unexp(p, ctx)
        if u is not None: return s.lt0(u, ctx)
        if len(p) == 2:
            (m1, q1), (m2, q2) = p.items()
            if q1 == -q2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                a, b = m1[0][0], m2[0][0]
                if {a.op, b.op} == {'max', 'min'} and a.args == b.args and ctx.decide(lt(ZERO, a.args[0])) is True:
                    hi = q1 if a.op == 'max' else q2
                    if hi > 0: return {}          # a maximum is no smaller than the minimum of the same elements
        # positive common factor out
        ip = s.intscale(p)
        if ip is not None:
            g = 0
            for m, q in ip.items():
                if m != (): g = math.gcd(g, int(q))
            k = ip.get((), Fraction(0))
            sg, lead = s.orient(ip)
            q = {m: v / g for m, v in ip.items() if m != ()}
            # q*g + k < 0  <=> q < -k/g  <=> q <= ceil(-k/g)-1 = u
            u = math.ceil(Fraction(-k, g)) - 1
            if sg > 0:
                return s.brp(le(p_to_term(q), c(u)), ctx)
            q = pscale(q, -1)   # -q <= u  <=> q >= -u  <=> not(q <= -u-1)
            return padd(ONEP, s.brp(le(p_to_term(q), c(-u - 1)), ctx), -1)
        sg, lead = s.orient(p)
        q = pscale(p, 1 / abs(lead))
        k = q.pop((), Fraction(0))
        if sg > 0: return s.brp(lt(p_to_term(q), c(-k)), ctx)
        q = pscale(q, -1)       # q > k  : 1 - [q<k] - [q==k]
        t = p_to_term(q)
        r = ctx.decide(lt(c(k), t))
        if r is not None: return ONEP if r else {}
        return padd(padd(ONEP, s.brp(lt(t, c(k)), ctx), -1), s.brp(eq(t, c(k)), ctx), -1)
    def eq0(s, p, ctx):
        if pisconst(p): return {} if p else ONEP
        if any(e < 0 for m in p for a, e in m): p = s.posscale(p, ctx)
        if pisconst(p): return {} if p else ONEP
        u = s.unexp(p, ctx)
        if u is not None: return s.eq0(u, ctx)
        ip = s.intscale(p)
        if ip is not None:
            g = 0
            for m, q in ip.items():
                if m != (): g = math.gcd(g, int(q))
            k = ip.get((), Fraction(0))
            if k % g: return {}
            ip = pscale(ip, Fraction(1, g)); p = ip
        sg, lead = s.orient(p)
        p = pscale(p, 1 / lead)
        k = p.pop((), Fraction(0))
        t = p_to_term(p)
        return s.brp(eq(t, c(-k)), ctx)
    def cmp_term(s, op, a, b):
        ta, tb = p_to_term(a), p_to_term(b)
        return le(ta, tb) if op == 'le' else lt(ta, tb)

def abs_id(a):
    # by symbol first, so that instances of a formula are oriented alike
    return a.id
def p_to_term_c(p, x):
    """polynomial to term with an ordering invariant under the name of the open variable x"""
    items = []
    for m, q in p.items():
        fs = sorted(m, key=lambda ae: (abstract(ae[0], x).id, ae[1]))
        items.append((tuple((abstract(a, x).id, e) for a, e in fs), fs, q))
    items.sort(key=lambda z: z[0])
    t = None
    for k, fs, q in items:
        y = m_to_term(fs, q)
        t = y if t is None else mk('add', (t, y), 'R' if t.sort == 'R' or y.sort == 'R' else 'I')
    return ZERO if t is None else t
def flat_factors(b):
    """a normalised sum body -> list of (atom, exp), or None"""
    out = []
    st = [b]
    while st:
        t = st.pop()
        if t.op == 'mul': st += list(t.args)
        elif t.op == 'pw': out.append((t.args[0], t.args[1]))
        elif t.op == 'add': return None
        elif t.op == 'c':
            if cv(t) != 1: return None
        else: out.append((t, 1))
    return out
def canon_sum(ix, fs):
    """canonical nested sum atom; ix list of (var, range), fs factors (atom,exp) in those vars"""
    xs = [x for x, n in ix]
    rng = dict(ix)
    best = None
    perms = itertools.permutations(xs) if len(xs) <= 4 else [tuple(xs)]
    for pm in perms:
        ok = True
        for k, x in enumerate(pm):
            if any(y in rng[x].fv for y in pm[k:]): ok = False; break
        if not ok: continue
        # pm[0] outermost
        L = len(pm)
        ents = []
        for a, e in fs:
            b = a
            for k, x in enumerate(pm): b = abstract(b, x, L - 1 - k)
            ents.append((b, e))
        ents.sort(key=lambda z: (z[0].id, z[1]))
        rs = []
        for k, x in enumerate(pm):
            n = rng[x]
            for j in range(k): n = abstract(n, pm[j], k - 1 - j)
            rs.append(n)
        key = (tuple(r.id for r in rs), tuple((b.id, e) for b, e in ents))
        if best is None or key < best[0]: best = (key, rs, ents)
    key, rs, ents = best
    body = m_to_term(tuple(ents))
    for n in reversed(rs):
        body = mk('sum', (n, body), body.sort)
    return body
def repl_(t, a, b):
    memo = {}
    def go(t):
        if t is a: return b
        r = memo.get(t)
        if r is None:
            r = t if t.op in ('c', 'v', 'b') else rebuild(t, tuple(go(x) if isinstance(x, T) else x for x in t.args))
            memo[t] = r
        return r
    return go(t)
def solve_lin(e, x):
    """eq(lhs,rhs) linear in int var x with coefficient +-1 -> term for x"""
    if x.sort != 'I': return None
    p = padd(poly_of(e.args[0]), poly_of(e.args[1]), -1)
    k = None; rest = {}
    for m, q in p.items():
        hasx = [ae for ae in m if x in ae[0].fv]
        if hasx:
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1 and abs(q) == 1: k = q
            else: return None
        else: rest[m] = q
    if k is None: return None
    if not all(all(a.sort == 'I' and ex > 0 for a, ex in m) and q.denominator == 1 for m, q in rest.items()): return None
    return p_to_term(pscale(rest, -1 / k))
def solve_eq(e, x):
    """eq linear in x with constant coefficient -> term for x (reals included)"""
    if x.sort == 'I':
        return solve_lin(e, x)
    if x.sort not in 'IR' or e.args[0].sort not in 'IR': return None
    p = padd(poly_of(e.args[0]), poly_of(e.args[1]), -1)
    k = None; rest = {}
    for m, q in p.items():
        if any(x in a.fv for a, _ in m):
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1: k = q
            else: return None
        else: rest[m] = q
    return None if k is None else p_to_term(pscale(rest, -1 / k))
def bound_of(e, x):
    """le(lhs,rhs)/lt over ints -> ('ub',T) meaning x<T or ('lb',T) meaning x>=T"""
    if x.sort != 'I': return None
    p = padd(poly_of(e.args[0]), poly_of(e.args[1]), -1)
    k = None; rest = {}
    for m, q in p.items():
        if any(x in a.fv for a, _ in m):
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1 and abs(q) == 1: k = q
            else: return None
        else: rest[m] = q
    if k is None: return None
    if not all(all(a.sort == 'I' and ex > 0 for a, ex in m) and q.denominator == 1 for m, q in rest.items()): return None
    # k*x + rest (<= or <) 0
    if k == 1:
        t = p_to_term(padd(pscale(rest, -1), pconst(1 if e.op == 'le' else 0)))
        return ('ub', t)
    t = p_to_term(padd(rest, pconst(0 if e.op == 'le' else 1)))
    return ('lb', t)
def poly_of(t):
    """polynomial of an already normalised term"""
    p = _ptm.get(t)
    if p is not None: return p
    if t.op == 'c': return pconst(cv(t))
    if t.op == 'add':
        r = {}
        for a in t.args: r = padd(r, poly_of(a))
        return r
    if t.op == 'mul':
        r = ONEP
        for a in t.args: r = pmul(r, poly_of(a))
        return r
    if t.op == 'pw': return {((t.args[0], t.args[1]),): Fraction(1)}
    return atom(t)

# ------------------------------------------------------------------ SMT
class NoTr(Exception): pass
class Z3Tr:
    """translate terms to z3. light: no quantifiers (used for quick decisions)."""
    def __init__(s, nfz, light=False):
        s.light = light; s.funs = {}; s.ax = []; s.memo = {}; s.opq = {}; s.bound = []
        s.U = None
        s.done_ax = set()
        s.strs = {}
    def sort(s, k):
        if k == 'I': return z3.IntSort()
        if k == 'R': return z3.RealSort()
        if k == 'B': return z3.BoolSort()
        return z3.IntSort()      # opaque values: a linear order is all that is used
    def axioms(s):
        a = s.ax; s.ax = []
        return a
    def b(s, t):
        r = s.t(t)
        return r
    def num(s, t):
        return s.t(t)
    def toreal(s, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e
    def pair(s, a, b):
        x, y = s.t(a), s.t(b)
        if x.sort() != y.sort(): x, y = s.toreal(x), s.toreal(y)
        return x, y
    def t(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s._t(t)
            s.memo[t] = r
        return r
    def _t(s, t):
        op = t.op; a = t.args
        if op == 'c':
            v, k = a
            if k == 'B': return z3.BoolVal(v)
            if k == 'S':
                # an order-preserving code; strings too long for it stay uninterpreted
                if len(v) > 24 or any(ord(x) > 255 for x in v): return z3.Int('str!' + v)
                k = 0
                for i in range(24): k = k * 257 + (ord(v[i]) + 1 if i < len(v) else 0)
                return z3.IntVal(k)
            if v.denominator == 1: return z3.IntVal(v.numerator)
            return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
        if op == 'v': return z3.Const(a[0], s.sort(t.sort))
        if op == 'app':
            args = [s.t(x) for x in a[1:]]
            f = s.fun(a[0], tuple(x.sort for x in a[1:]), t.sort)
            args = [s.toreal(x) if f.domain(i) == z3.RealSort() else x for i, x in enumerate(args)]
            return f(*args) if args else z3.Const(a[0], s.sort(t.sort))
        if op == 'add':
            xs = [s.t(x) for x in a]
            if any(x.sort() == z3.RealSort() for x in xs): xs = [s.toreal(x) for x in xs]
            return z3.Sum(xs)
        if op == 'mul':
            xs = [s.t(x) for x in a]
            if any(x.sort() == z3.RealSort() for x in xs): xs = [s.toreal(x) for x in xs]
            r = xs[0]
            nonc = [x for x in xs if not (z3.is_int_value(x) or z3.is_rational_value(x))]
            if s.light and len(nonc) > 1:
                return s.opaque(t)
            for x in xs[1:]: r = r * x
            return r
        if op == 'pw':
            if s.light:
                return s.opaque(t)
            x = s.toreal(s.t(a[0])) if t.sort == 'R' else s.t(a[0])
            e = abs(a[1]); r = x
            for _ in range(e - 1): r = r * x
            if a[1] < 0: r = s.toreal(1 / s.toreal(r))
            return r
        if op == 'poly': return s.t(a[0])
        if op == 'inv':
            if s.light: return s.opaque(t)
            return 1 / s.toreal(s.t(a[0]))
        if op == 'lt':
            x, y = s.pair(*a); return x < y
        if op == 'le':
            x, y = s.pair(*a); return x <= y
        if op == 'eq':
            if a[0].sort == 'B': return s.t(a[0]) == s.t(a[1])
            x, y = s.pair(*a); return x == y
        if op == 'not': return z3.Not(s.t(a[0]))
        if op == 'and': return z3.And([s.t(x) for x in a])
        if op == 'or': return z3.Or([s.t(x) for x in a])
        if op == 'ite':
            x, y = s.t(a[1]), s.t(a[2])
            if x.sort() != y.sort(): x, y = s.toreal(x), s.toreal(y)
            return z3.If(s.t(a[0]), x, y)
        if op == 'br': return z3.If(s.t(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'floor':
            if s.light:
                o = s.opaque(t)
            else: o = s.opaque(t)
            x = s.toreal(s.t(a[0]))
            if t not in s.done_ax:
                s.done_ax.add(t)
                if t.nb == 0: s.ax += [z3.ToReal(o) <= x, x < z3.ToReal(o) + 1]
            return o
        if op in ('idiv', 'imod'):
            x, y = s.t(a[0]), s.t(a[1])
            if isc(a[1]): return (x / y) if op == 'idiv' else (x % y)
            o = s.opaque(mk('idiv', (a[0], a[1]), 'I'))
            if t.nb == 0 and ('dv', a[0], a[1]) not in s.done_ax:
                s.done_ax.add(('dv', a[0], a[1]))
                # only used with positive divisor
                s.ax.append(z3.Implies(y > 0, z3.And(o * y <= x, x < o * y + y)) if not s.light else
                            z3.Implies(z3.And(y > 0, x >= 0), z3.And(o >= 0, o <= x)))
            return o if op == 'idiv' else x - y * o
        if op in ('exists', 'forall', 'all') and not s.light:
            if op == 'all':
                v, b = a
                q = z3.Const(v.args[0], s.sort(v.sort))
                s.memo.pop(v, None)
                return z3.ForAll([q], s.t(b))
            x = fresh('q')
            q = z3.Int(x.args[0])
            body = s.t(instantiate(a[1], x))
            n = s.t(a[0])
            rng = z3.And(q >= 0, q < n)
            return z3.Exists([q], z3.And(rng, body)) if op == 'exists' else z3.ForAll([q], z3.Implies(rng, body))
        if op in ('exists', 'forall', 'all') and s.light and op == 'all': raise NoTr()
        return s.opaque(t)
    def fun(s, name, ds, rs):
        k = (name, ds, rs)
        f = s.funs.get(k)
        if f is None:
            f = z3.Function(name + ('' if ds else ''), *([s.sort(d) for d in ds] + [s.sort(rs)]))
            s.funs[k] = f
        return f
    def opaque(s, t):
        """uninterpreted symbol keyed by the term with its free bound-variables as arguments"""
        r = s.opq.get(t)
        if r is None:
            vs = sorted((v for v in t.fv if v.args[0].startswith('q!') or v.args[0].startswith('%')), key=lambda v: v.id)
            if vs:
                b = t
                for v in vs: b = abstract(b, v, 0) if len(vs) == 1 else mk('lam', (abstract_multi(b, vs),), t.sort)
                if len(vs) > 1: b = abstract_multi(t, vs)
                f = z3.Function('opq%d' % b.id, *([s.sort(v.sort) for v in vs] + [s.sort(t.sort)]))
                r = f(*[s.t(v) for v in vs])
            else:
                r = z3.Const('opq%d' % t.id, s.sort(t.sort))
            s.opq[t] = r
            s.opaque_axioms(t, r)
        return r
    def opaque_axioms(s, t, r):
        if t.op == 'fn':
            if t.args[0] == 'exp': s.ax.append(r > 0)
            if t.args[0] == 'log':
                x = s.toreal(s.t(t.args[1])); s.ax.append(z3.Implies(x >= 1, r >= 0)); s.ax.append(z3.Implies(z3.And(x > 0, x <= 1), r <= 0))
            if t.args[0] == 'sqrt':
                s.ax.append(r >= 0)
                if not s.light:
                    x = s.toreal(s.t(t.args[1])); s.ax.append(z3.Implies(x >= 0, r * r == x)); s.ax.append(z3.Implies(x > 0, r > 0))
        if t.op == 'pw' and t.args[1] % 2 == 0: s.ax.append(r >= 0)
        if t.op == 'pw' and s.light:
            x = s.t(t.args[0])
            s.ax.append(z3.Implies(x > 0, r > 0)); s.ax.append(z3.Implies(x >= 0, r >= 0))
        if t.op == 'inv' and s.light:
            x = s.t(t.args[0]); s.ax.append(z3.Implies(x > 0, r > 0)); s.ax.append(z3.Implies(x < 0, r < 0))
        if t.op == 'card': s.ax.append(r >= 0)
        if t.op in ('argmax', 'argmin'):
            n = s.t(t.args[0])
            s.ax.append(z3.Implies(n > 0, z3.And(r >= 0, r < n)))
        if t.op == 'nth': s.ax.append(r >= 0)
        if t.op == 'sum':
            # nonnegativity of sums of brackets / squares, and bound by the range for counts
            b = t.args[1]
            if all(f.op == 'br' or (f.op == 'pw' and f.args[1] % 2 == 0) or (f.op == 'fn' and f.args[0] == 'exp') or (f.op == 'c' and cv(f) >= 0)
                   for f in (flat_factors_list(b))):
                s.ax.append(r >= 0)
                if all(f.op == 'br' for f in flat_factors_list(b)):
                    n = s.t(t.args[0])
                    s.ax.append(z3.Implies(n >= 0, r <= n))
        if t.op == 'mul' and s.light:
            # sign rules for products of two factors
            xs = [s.t(x) for x in t.args]
            if len(xs) == 2:
                x, y = xs
                s.ax.append(z3.Implies(z3.And(x > 0, y > 0), r > 0))
                s.ax.append(z3.Implies(z3.And(x >= 0, y >= 0), r >= 0))
                s.ax.append(z3.Implies(z3.Or(x == 0, y == 0), r == 0))
                s.ax.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(r >= x, r >= y)))
def flat_factors_list(b):
    out = []
    st = [b]
    while st:
        t = st.pop()
        if t.op == 'mul': st += list(t.args)
        elif t.op == 'sum': st.append(t.args[1])
        else: out.append(t)
    return out
def abstract_multi(t, vs):
    L = len(vs)
    for k, v in enumerate(vs): t = abstract(t, v, L - 1 - k)
    return t
