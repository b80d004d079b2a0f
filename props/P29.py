from spec import *
import math
P = Prop('P29')
P.include('methods/tree/decision_tree_classifier.hpp', 'methods/tree/decision_tree_regressor.hpp')
P.code('''using TC = openml::decision_tree::DecisionTreeClassifier<double>; using TR = openml::decision_tree::DecisionTreeRegressor<double>;
inline TC* vf_make(TC*) { return new TC(); } inline TR* vf_make(TR*) { return new TR(); }''')
NOTE = 'the recursive construction over shared heap nodes is outside the verifier: executed against a best-first reference tree'
# ---------------- reference: every prediction a best-first tree may give for a query (ties branch)
def var(y): m = sum(y) / len(y); return sum((v - m) ** 2 for v in y) / len(y)
def medv(y): s = sorted(y); n = len(s); return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
def mad(y): m = medv(y); return sum(abs(v - m) for v in y) / len(y)
def probs(y): return [y.count(v) / len(y) for v in sorted(set(y))]
def gini(y): return 1 - sum(p * p for p in probs(y))
def entr(y): return -sum(p * math.log2(p) for p in probs(y))
IMP = {'squared_error': var, 'absolute_error': mad, 'gini': gini, 'entropy': entr}
def possible(imp, X, y, q, lim, leafval):
    mss, msl, md, mid = lim; out = set()
    def go(S, depth):
        ys = [y[i] for i in S]; leaf = lambda: out.add(leafval(ys))
        if len(S) < mss or depth >= md: return leaf()
        base = imp(ys); best = []; top = 0.
        for f in range(len(q)):
            vs = sorted(set(X[i][f] for i in S))
            for a, b in zip(vs, vs[1:]):
                t = (a + b) / 2; L = [i for i in S if X[i][f] <= t]; R = [i for i in S if X[i][f] > t]
                d = base - len(L) / len(S) * imp([y[i] for i in L]) - len(R) / len(S) * imp([y[i] for i in R])
                best.append((d, f, t, L, R)); top = max(top, d)
        if top <= mid + 1e-9: leaf()
        if not best or top <= mid - 1e-9: return leaf()
        for d, f, t, L, R in best:
            if d < top - 1e-9: continue
            if min(len(L), len(R)) < msl: leaf()
            else: go(L if q[f] <= t else R, depth + 1)
    go(list(range(len(y))), 0)
    return out
def gx(g):
    n, d = g.r.randint(1, 9), g.r.randint(1, 3); kind = g.r.choice(['int', 'int', 'real', 'const'])
    num = {'int': lambda: float(g.r.randint(0, 4)), 'real': lambda: round(g.r.uniform(-3, 3), 3), 'const': lambda: 1.}[kind]
    X = [[num() for _ in range(d)] for _ in range(n)]
    if g.r.random() < .4:
        for r in X: r[0] = float(g.r.randint(0, 6))
    Q = [list(r) for r in X[:4]] + [[x + g.r.choice([0., .5, -.5, 1.]) for x in g.r.choice(X)] for _ in range(3)]
    return n, X, Q
def limits(g): return [g.r.choice([0, 1, 2, 2, 2, 3, 4]), g.r.choice([0, 1, 1, 2, 3]), g.r.choice([0, 1, 2, 3, 4, 4, 9]), g.r.choice([0., 1e-7, 1e-7, .05, .2, .5])]
def genc(g):
    n, X, Q = gx(g); labs = g.r.choice([[0., 1.], [0., 1., 2.], [1., 2.], [-1., 3., 7.]])
    return [mk_mat(X), vec([g.r.choice(labs) for _ in range(n)]), mk_mat(Q)] + limits(g)
def genr(g):
    n, X, Q = gx(g); f = g.r.choice([lambda: float(g.r.randint(0, 3)), lambda: float(g.r.randint(-20, 20)), lambda: round(g.r.uniform(-2, 2), 2)])
    return [mk_mat(X), vec([f() for _ in range(n)]), mk_mat(Q)] + limits(g)
def vec(v): return list(v)
def mk_mat(X): return {'r': len(X), 'c': len(X[0]), 'e': X}
def near(a, b): return all(abs(x - z) <= 1e-9 * (1 + abs(z)) for x, z in zip(a, b))
def o_prob(crit):
    def o(r, X, y, Q, *lim):
        cl = sorted(set(y))
        if (r['r'], r['c']) != (Q['r'], len(cl)): return 'one row per query and one column per class'
        for p, q in zip(r['e'], Q['e']):
            w = possible(IMP[crit], X['e'], y, q, lim, lambda ys: tuple(ys.count(v) / len(ys) for v in cl))
            if not any(near(p, v) for v in w): return 'query %s: a best-first tree gives class frequencies %s, returned %s' % (q, sorted(w)[:3], p)
    return o
def o_label(crit):
    def o(r, X, y, Q, *lim):
        cl = sorted(set(y))
        for p, q in zip(r, Q['e']):
            w = possible(IMP[crit], X['e'], y, q, lim, lambda ys: tuple(v for v in cl if ys.count(v) == max(ys.count(u) for u in cl)))
            if not any(p in v for v in w): return 'query %s: a most frequent label of its leaf is %s, predicted %s' % (q, sorted(w)[:3], p)
    return o
def o_mean(crit):
    def o(r, X, y, Q, *lim):
        for p, q in zip(r, Q['e']):
            w = possible(IMP[crit], X['e'], y, q, lim, lambda ys: (sum(ys) / len(ys),))
            if not any(near([p], v) for v in w): return 'query %s: the mean of its leaf is %s, predicted %s' % (q, sorted(w)[:3], p)
    return o
ARG = '(const M& X, const V& y, const M& Q, size_t mss, size_t msl, size_t md, double mid)'
for cr in ('gini', 'entropy'):
    P.fn('M class_probabilities_%s' % cr + ARG, '{ TC t("%s", mss, msl, md, mid); t.fit(X, y); return t.predict_prob(Q); }' % cr, gen=genc, oracle=o_prob(cr), prove=False, note=NOTE, ncases=200)
    P.fn('V class_labels_%s' % cr + ARG, '{ TC t("%s", mss, msl, md, mid); t.fit(X, y); return t.predict(Q); }' % cr, gen=genc, oracle=o_label(cr), prove=False, note=NOTE, ncases=100)
for cr in ('squared_error', 'absolute_error'):
    P.fn('V means_%s' % cr + ARG, '{ TR t("%s", mss, msl, md, mid, 1e-9); t.fit(X, y); return t.predict(Q); }' % cr, gen=genr, oracle=o_mean(cr), prove=False, note=NOTE, ncases=200)
DEF = (2, 0, 4, 1e-7)
P.fn('M class_default(const M& X, const V& y, const M& Q)', '{ TC t; t.fit(X, y); return t.predict_prob(Q); }', gen=lambda g: genc(g)[:3], oracle=lambda r, X, y, Q: o_prob('gini')(r, X, y, Q, *DEF), prove=False, note=NOTE, ncases=100)
P.fn('V mean_default(const M& X, const V& y, const M& Q)', '{ TR t; t.fit(X, y); return t.predict(Q); }', gen=lambda g: genr(g)[:3], oracle=lambda r, X, y, Q: o_mean('squared_error')(r, X, y, Q, *DEF), prove=False, note=NOTE, ncases=100)

# ---------------- contracts
def freq(x, v): return div(Count(x.rows, lambda k: eq(x.f(k, ZERO), v)), x.rows)
log2 = lambda p: div(log(p), log(c(2)))
def over(x, f): return SumSet(lambda v: Exists(x.rows, lambda i: eq(x.f(i, ZERO), v)), f)
S_IMP = {'entropy': lambda x: over(x, lambda v: -mul(freq(x, v), log2(freq(x, v)))), 'gini': lambda x: sub(ONE, over(x, lambda v: mul(freq(x, v), freq(x, v))))}
mean = lambda x: div(Sum(x.rows, lambda i: x.f(i, ZERO)), x.rows)
def var_(x): return sub(div(Sum(x.rows, lambda i: mul(x.f(i, ZERO), x.f(i, ZERO))), x.rows), mul(mean(x), mean(x)))
def med_(x):
    n = x.rows; f = lambda i: x.f(i, ZERO)
    return ite(eq(imod(n, 2), ZERO), div(add(Ksm(n, f, idiv(n, 2)), Ksm(n, f, sub(idiv(n, 2), ONE))), c(2)), Ksm(n, f, idiv(n, 2)))
def mad_(x): return div(Sum(x.rows, lambda i: abs_(sub(x.f(i, ZERO), med_(x)))), x.rows)
S_IMP.update(squared_error=var_, absolute_error=mad_)
def decrease(cr):
    I = S_IMP[cr]
    return lambda y, l, r: sub(sub(I(y), mul(div(l.rows, y.rows), I(l))), mul(div(r.rows, y.rows), I(r)))
def gsplit(g):
    a = [float(g.r.randint(0, 3)) for _ in range(g.r.randint(1, 5))]; b = [float(g.r.randint(0, 3)) for _ in range(g.r.randint(1, 5))]
    return [a + b, a, b]
for cr in S_IMP:
    T = 'TC' if cr in ('gini', 'entropy') else 'TR'
    P.fn('double decrease_%s(const V& y, const V& l, const V& r)' % cr, '{ %s& t = vf_blank<%s>(); t.criterion_ = "%s"; return t.compute_impurity(y, l, r); }' % (T, T, cr), internal=True, dims={'y': 'n', 'l': 'a', 'r': 'b'}, gen=gsplit,
         req=lambda y, l, r: [eq(y.rows, add(l.rows, r.rows))],
         ens_proof_only=True, oracle=lambda ret, y, l, r, I=IMP[cr]: (lambda w: None if abs(w - ret) < 1e-9 * (1 + abs(w)) else 'decrease is %g, returned %g' % (w, ret))(I(y) - len(l) / len(y) * I(l) - len(r) / len(y) * I(r)),
         ens=lambda ret, y, l, r, cr=cr: [('impurity decrease of the split', eq(ret, decrease(cr)(y, l, r)))])
P.fn('double leaf_mean(const V& y)', '{ TR& t = vf_blank<TR>(); return std::get<0>(t.compute_node_value(y)); }', internal=True, dims={'y': 'n'}, ens=lambda r, y: [('a leaf holds the mean target', eq(r, mean(y)))])
P.fn('V leaf_counts(const V& y0, const V& y)', '{ TC& t = vf_blank<TC>(); for (Idx i = 0; i < y0.rows(); ++i) t.label_count_[y0(i)]++; return std::get<0>(t.compute_node_value(y)); }', internal=True, dims={'y0': 'n', 'y': 'm'}, vals={'y0': [0., 1., 2., 5.], 'y': [0., 1., 2., 5.]},
     ens_proof_only=True, oracle=lambda r, y0, y: None if r == [float(y.count(v)) for v in sorted(set(y0))] else 'counts per class are %s' % [y.count(v) for v in sorted(set(y0))],
     ens=lambda r, y0, y: (lambda has: [('one count per class', eq(r.rows, Card(has))), ('a leaf counts its samples per class in label order', Forall(Card(has), lambda j: eq(r.f(j, ZERO), Count(y.rows, lambda i: eq(y.f(i, ZERO), Enum(has, j))))))])(lambda v: Exists(y0.rows, lambda i: eq(y0.f(i, ZERO), v))))
