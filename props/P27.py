from spec import *
import itertools
P = Prop('P27')
P.include('methods/rule_model/apriori.hpp')
P.code('using AP = openml::rule_model::Apriori<size_t>; inline AP* vf_make(AP*) { return new AP(); }')
NOTE = 'level-wise search over a hash tree of shared heap nodes is outside the verifier; checked against brute-force enumeration by bounded replay'
def gen(g):
    v = g.r.randint(2, 6); n = g.r.randint(1, 9); base = g.r.choice([0, 1, 10])
    X = []
    for _ in range(n):
        t = [base + g.r.randrange(v) for _ in range(g.r.randint(1, v))]
        if g.r.random() < .6: t = list(dict.fromkeys(t))
        if g.r.random() < .5: t = sorted(t)
        X.append(t)
    if g.r.random() < .3: X = [sorted(set(t)) for t in X]
    ms = g.r.choice([1. / n, 2. / n, .5, .3, 1., 1.])
    while int(n * ms) < 1: ms = 1.
    return [X, ms, g.r.choice([0., .5, .6, .75, 1., .25])]
def frequent(X, ms):
    n = len(X); s = int(n * ms); T = [set(t) for t in X]; items = sorted(set().union(*T)); out = {}
    for k in range(1, len(items) + 1):
        for cmb in itertools.combinations(items, k):
            c = sum(1 for t in T if t >= set(cmb))
            if c >= s: out[cmb] = c
    return out
def o_freq(r, X, ms, mc):
    got = {}
    for x, c in zip(r[0], r[1]):
        k = tuple(sorted(x))
        if len(set(x)) != len(x): return 'itemset %s repeats an item' % x
        if k in got: return 'itemset %s is reported twice' % (k,)
        got[k] = int(c)
    w = frequent(X, ms)
    for k in w:
        if k not in got: return 'frequent itemset %s (in %d transactions) is missing' % (k, w[k])
        if got[k] != w[k]: return 'support of %s is %d, reported %d' % (k, w[k], got[k])
    for k in got:
        if k not in w: return 'itemset %s is not frequent' % (k,)
def o_rules(r, X, ms, mc):
    f = frequent(X, ms); want = {}
    for k in f:
        for m in range(1, len(k)):
            for a in itertools.combinations(k, m):
                cf = f[k] / f[a]
                if cf >= mc: want[(a, tuple(x for x in k if x not in a))] = cf
    got = {}
    for a, b, cf in zip(*r):
        key = (tuple(sorted(a)), tuple(sorted(b)))
        if key in got: return 'rule %s is reported twice' % (key,)
        got[key] = cf
    for k in want:
        if k not in got: return 'rule %s (confidence %g) is missing' % (k, want[k])
        if abs(got[k] - want[k]) > 1e-12: return 'confidence of %s is %g, reported %g' % (k, want[k], got[k])
    for k in got:
        if k not in want: return 'rule %s does not meet the thresholds' % (k,)
SIG = 'const vector<vector<size_t>>& X, double ms, double mc)'
SPLIT = 'vector<vector<size_t>> p, q; vector<double> c; for (auto& r : t.get_rules()) { p.push_back(std::get<0>(r)); q.push_back(std::get<1>(r)); c.push_back(std::get<2>(r)); } return std::make_tuple(p, q, c); }'
P.fn('tuple<vector<vector<size_t>>,vector<size_t>> frequent_itemsets(' + SIG, '{ AP t(ms, mc); t.fit_transform(X); vector<vector<size_t>> p; vector<size_t> c; for (auto& r : t.all_frequency_) { p.push_back(r.first); c.push_back(r.second); } return std::make_tuple(p, c); }',
     gen=gen, oracle=o_freq, internal=True, prove=False, note=NOTE, ncases=200, throw_ok=lambda a, what: not frequent(a[0], a[1]))
P.fn('tuple<vector<vector<size_t>>,vector<vector<size_t>>,vector<double>> rules(' + SIG, '{ AP t(ms, mc); t.fit_transform(X); ' + SPLIT, gen=gen, oracle=o_rules, prove=False, note=NOTE, ncases=200, throw_ok=lambda a, what: not frequent(a[0], a[1]))
P.fn('bool joins(const vector<size_t>& a, const vector<size_t>& b)', '{ return vf_blank<AP>().is_prefix(a, b); }', internal=True, gen=lambda g: (lambda n: [[g.r.randint(0, 2) for _ in range(n)], [g.r.randint(0, 2) for _ in range(n)]])(g.r.randint(1, 4)),
     req=lambda a, b: [eq(a.n, b.n), le(1, a.n)], ens=lambda r, a, b: [('two itemsets are joined exactly when they agree but for the last item', eq(r, Forall(sub(a.n, ONE), lambda i: eq(a.f(i), b.f(i)))))])
