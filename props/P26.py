from spec import *
import itertools
P = Prop('P26')
P.level = 'exploration'
P.include('core/tree/hash_tree.hpp')
P.code('''struct HN { bool is_leaf; size_t index; map<vector<size_t>, size_t> bucket; map<size_t, std::shared_ptr<HN>> children; HN(): is_leaf(true), index(0) {} HN(bool l, size_t i = 0): is_leaf(l), index(i) {} };
using HT = openml::tree::HashTree<HN, size_t>; using LL = vector<vector<size_t>>;''')
NOTE = 'recursive insertion over shared heap nodes is outside the verifier; checked against a dictionary oracle by bounded replay'
def gen(g):
    k = g.r.randint(1, 4); v = g.r.choice([3, 4, 6, 9])
    items = lambda: sorted(g.r.sample(range(max(v, k + 1)), k)) if g.r.random() < .8 else sorted(g.r.choice([0, 1, 2, 7, 30]) for _ in range(k))
    ins = [items() for _ in range(g.r.randint(1, 25))]
    occ = [g.r.choice(ins) if g.r.random() < .7 else items() for _ in range(g.r.randint(0, 30))]
    return [ins, occ, g.r.randint(0, 5), g.r.choice([1, 2, 3, 3, 5, 40]), g.r.choice([1, 2, 3, 3, 7, 40])]
def want(ins, occ, support):
    d = {}
    for x in ins: d.setdefault(tuple(x), 0)
    for x in occ:
        if tuple(x) in d: d[tuple(x)] += 1
    return sorted((list(k), v) for k, v in d.items() if v >= support)
def got(r): return sorted((x, int(n)) for x, n in zip(r[1], r[0]))
def diff(a, b):
    if a == b: return None
    return 'expected %s, got %s' % ([x for x in b if x not in a][:3], [x for x in a if x not in b][:3] or 'repeated itemsets')
def lens(r): return None if len(r[0]) == len(r[1]) else 'as many counts as itemsets'
BUILD = 'HT t(leaf, child); for (auto& x : ins) t.build_tree(x); '
GET = 'vector<size_t> c; LL s; t.compute_frequency_itemsets(support, c, s); return std::make_tuple(c, s); }'
SIG = 'const LL& ins, const LL& occ, size_t support, size_t leaf, size_t child)'
SIG = SIG.replace('LL', 'vector<vector<size_t>>'); RT = 'tuple<vector<size_t>,vector<vector<size_t>>> '
P.fn(RT + 'count_itemsets(' + SIG, '{ ' + BUILD + 'for (auto& x : occ) t.add_support(x); ' + GET, gen=gen, oracle=lambda r, ins, occ, s, l, ch: lens(r) or diff(got(r), want(ins, occ, s)), prove=False, note=NOTE, ncases=300)
P.fn(RT + 'count_twice(' + SIG, '{ ' + BUILD + 'for (auto& x : occ) t.add_support(x); vector<size_t> c0; LL s0; t.compute_frequency_itemsets(1, c0, s0); ' + GET, gen=gen, oracle=lambda r, ins, occ, s, l, ch: lens(r) or diff(got(r), want(ins, occ, s)), prove=False, note=NOTE, ncases=100)
# insertions interleaved with occurrences: splits carry the counts collected so far
P.fn(RT + 'count_interleaved(' + SIG, '{ HT t(leaf, child); size_t k = 0; for (auto& x : ins) { t.build_tree(x); if (k < occ.size()) t.add_support(occ[k++]); } for (; k < occ.size(); k++) t.add_support(occ[k]); ' + GET, gen=gen,
     oracle=lambda r, ins, occ, s, l, ch: lens(r) or diff(got(r), want_i(ins, occ, s)), prove=False, note=NOTE, ncases=200)
def want_i(ins, occ, support):
    d = {}; k = 0
    for x in ins:
        d.setdefault(tuple(x), 0)
        if k < len(occ):
            if tuple(occ[k]) in d: d[tuple(occ[k])] += 1
            k += 1
    for x in occ[k:]:
        if tuple(x) in d: d[tuple(x)] += 1
    return sorted((list(a), v) for a, v in d.items() if v >= support)
P.fn('tuple<vector<size_t>,vector<vector<size_t>>> count_default(const vector<vector<size_t>>& ins, const vector<vector<size_t>>& occ, size_t support)', '{ HT t; for (auto& x : ins) t.build_tree(x); for (auto& x : occ) t.add_support(x); ' + GET,
     gen=lambda g: gen(g)[:3], oracle=lambda r, ins, occ, s: lens(r) or diff(got(r), want(ins, occ, s)), prove=False, note=NOTE, ncases=60)
