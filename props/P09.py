from spec import *
P = Prop('P09')
def distinct(x): return lambda f: Sum(x.rows, lambda i: mul(br(not_(Exists(i, lambda k: eq(x.f(k, ZERO), x.f(i, ZERO))))), f(x.f(i, ZERO))))
def freq(x, v): return div(Count(x.rows, lambda k: eq(x.f(k, ZERO), v)), x.rows)
def wfreq(x, w, v): return div(Sum(x.rows, lambda k: mul(br(eq(x.f(k, ZERO), v)), w.f(k, ZERO))), x.rows)
log2 = lambda p: div(log(p), log(c(2)))
def over(x, f): return SumSet(lambda v: Exists(x.rows, lambda i: eq(x.f(i, ZERO), v)), f)
ent = lambda x, fr: over(x, lambda v: -mul(fr(v), log2(fr(v))))
gin = lambda x, fr: sub(ONE, over(x, lambda v: mul(fr(v), fr(v))))
pos = lambda g: g.r.choice([.25, .5, 1., 1., 2., 3.])
lab = {'x': [0., 1., 1., 2., 5., -1.]}
def gw(g):
    n = g.dim(); m = n if g.r.random() < .7 else max(1, g.dim())
    return [g.vec(n, lab['x']), g.vec(m, pos)]
mism = lambda x, w: not_(eq(x.rows, w.rows))
def orc(nm):
    def o(r, x, w=None):
        n = len(x); w = w or [1.] * n; fr = {}
        for a, b in zip(x, w): fr[a] = fr.get(a, 0) + b / n
        v = -sum(p * math.log2(p) for p in fr.values()) if nm == 'entropy' else 1 - sum(p * p for p in fr.values())
        return None if abs(v - r) < 1e-9 * (1 + abs(v)) else 'expected %r, returned %r' % (v, r)
    return o
for nm, F in (('entropy', ent), ('gini', gin)):
    P.fn('double %s(const V& x)' % nm, '{ return openml::math::%s<V>(x); }' % nm, dims={'x': 'n'}, vals=lab, ens_proof_only=True, oracle=orc(nm), ens=lambda r, x, F=F: [('value', eq(r, F(x, lambda v: freq(x, v))))])
    P.fn('double %s_weighted(const V& x, const V& w)' % nm, '{ return openml::math::%s<V>(x, w); }' % nm, dims={'x': 'n', 'w': 'm'}, vals=dict(lab, w=pos), gen=gw, throws=mism,
         req=lambda x, w: [Forall(w.rows, lambda i: lt(ZERO, w.f(i, ZERO)))],
         ens_proof_only=True, oracle=orc(nm), ens=lambda r, x, w, F=F: [('value', eq(r, F(x, lambda v: wfreq(x, w, v))))])
