from spec import *
P = Prop('P28')
P.level = 'exploration'
P.include('core/preprocessing/transaction_encoder.hpp')
P.code(r"""
template<typename S> inline vector<vector<vector<double>>> vf_stored(const S& m) {
  vector<vector<vector<double>>> out;
  out.push_back(vector<vector<double>>{vector<double>{(double)m.rows(), (double)m.cols()}});
  for (long i = 0; i < (long)m.rows(); ++i) { vector<vector<double>> row;
    for (typename S::InnerIterator it(m, i); it; ++it) row.push_back(vector<double>{(double)it.row(), (double)it.col(), (double)it.value()});
    out.push_back(row); }
  return out; }
""")
def ok(r, x):
    items = sorted({v for t in x for v in t})
    if r[0][0] != [len(x), len(items)]: return 'expected %d x %d, got %s' % (len(x), len(items), r[0][0])
    for i, t in enumerate(x):
        e = [[i, items.index(v), v] for v in sorted(set(t))]
        if r[i + 1] != e: return 'row %d stores %s, expected %s' % (i, r[i + 1], e)
def trans(g):
    k = g.r.choice([1, 2, 3, 5, 8, 20])
    pool = g.r.choice([[0., 1., 2., 3.], [-2., -1., 0., 1., 2.5], [10., 9., 100., 1.], [float(i * 7 % 23) for i in range(23)]])
    return [[g.r.choice(pool) for _ in range(g.r.choice([0, 1, 2, 3, 4, 7]))] for _ in range(k)]
note = 'the code ends in Eigen::SparseMatrix::setFromTriplets over a concatenation of per-row sets; the contract is executed on generated lists (up to 20 transactions of up to 7 items), not proved'
P.fn('vector<vector<vector<double>>> encode(const vector<vector<double>>& x)', '{ openml::preprocessing::TransactionEncoder<double> t; return vf_stored(t.fit_transform(x)); }',
     gen=lambda g: [trans(g)], oracle=ok, prove=False, note=note, ncases=8, cases=lambda g: [[[]], [[[]]], [[[], []]], [[[3.], [1.]]], [[[0.]]], [[[0., 0.], [0.]]]])
P.fn('vector<vector<vector<double>>> encode_int(const vector<vector<Idx>>& x)', '{ openml::preprocessing::TransactionEncoder<Idx> t; return vf_stored(t.fit_transform(x)); }',
     gen=lambda g: [[[int(v) for v in t] for t in trans(g)]], oracle=ok, prove=False, note=note, ncases=8)
