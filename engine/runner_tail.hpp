namespace openml_client {
static unsigned vf_seed = 1; static std::string vf_failed; static double vf_big = 0;
void vf_assert(bool c, const char* what) { if (!c) { if (vf_failed.empty()) vf_failed = std::string("eigen_assert: monitor: ") + what; throw std::logic_error(std::string("eigen_assert: monitor: ") + what); } }
template <class A, class B> void vf_same(const A& a0, const B& b0, const char* what) {
  Eigen::MatrixXd a = a0, b = b0; bool ok = a.rows() == b.rows() && a.cols() == b.cols();
  for (long i = 0; ok && i < a.rows(); i++) for (long j = 0; ok && j < a.cols(); j++) ok = a(i, j) == b(i, j) || (std::isnan(a(i, j)) && std::isnan(b(i, j))) || std::abs(a(i, j) - b(i, j)) <= 1e-9 * (1 + std::abs(a(i, j)) + std::abs(b(i, j))) + 1e-12 * vf_big;
  vf_assert(ok, what); }
void vf_le(double a, double b, const char* what) { vf_assert(a <= b || a - b <= 1e-9 * (1 + std::abs(a) + std::abs(b)) + 1e-12 * vf_big, what); }
bool vf_regular(const Eigen::MatrixXd& a) { if (a.rows() != a.cols() || !a.allFinite()) return false; if (a.rows() == 0) return true; Eigen::JacobiSVD<Eigen::MatrixXd> d(a); auto s = d.singularValues(); return s(s.size() - 1) > 1e-5 * s(0) && s(s.size() - 1) > 1e-7; }
bool vf_zero(double x) { return std::abs(x) <= 1e-12; }
bool vf_spd(const Eigen::MatrixXd& a) { if (!vf_regular(a) || (a - a.transpose()).cwiseAbs().maxCoeff() > 1e-12 * a.cwiseAbs().maxCoeff()) return false; return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(a).eigenvalues()(0) > 0; }
std::string vf_file(const std::vector<std::vector<double>>& rows) {
  std::ofstream o("vf_data.txt"); const char* sep = vf_seed % 3 == 0 ? "\t" : vf_seed % 3 == 1 ? "  " : " ";
  for (auto& r : rows) { for (size_t k = 0; k < r.size(); k++) { char b[64]; snprintf(b, 64, "%.17g", r[k]); o << (k ? sep : vf_seed % 5 == 0 ? " " : "") << b; } o << "\n"; }
  return "vf_data.txt"; }
template <class T> T& vf_blank() { static std::deque<std::unique_ptr<T>> keep; if (keep.size() > 64) keep.clear(); keep.emplace_back(vf_make((T*)nullptr)); return *keep.back(); }
double vf_arb(int stream, long a, long b) {
  unsigned long long x = vf_seed * 0x9E3779B97F4A7C15ull + (unsigned long long)stream * 0xBF58476D1CE4E5B9ull + (unsigned long long)a * 0x94D049BB133111EBull + (unsigned long long)b * 0xD6E8FEB86659FD93ull;
  x ^= x >> 31; x *= 0x7FB5D329728EA185ull; x ^= x >> 27; x *= 0x81DADEF4BC2DD44Dull; x ^= x >> 33;
  static const double grid[] = {0, 0, 0, 1, -1, 0.5, -0.5, 2, -2, 3, -3, 0.25, 1e-3, -1e-3, 10, -10};
  double v = grid[x % 16]; if ((x >> 8) % 4 == 0) v += ((double)((x >> 12) % 2048) - 1024) / 512; if ((x >> 40) % 97 == 0) v *= 1e11; vf_big = std::max(vf_big, std::abs(v)); return v; }
Eigen::MatrixXd vf_arbm(int stream, long a, long r, long c) { Eigen::MatrixXd m(r, c); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) m(i, j) = vf_arb(stream + 1000 * (j + 1), a, i); return m; }
}
namespace vrun {
using std::istream; using std::ostream;
inline double rdnum(istream& i) { std::string t; i >> t; if (t == "nan") return std::nan(""); if (t == "inf") return INFINITY; if (t == "-inf") return -INFINITY; return std::strtod(t.c_str(), nullptr); }
template <class T> struct IO;
template <> struct IO<double> { static double rd(istream& i) { return rdnum(i); } static void wr(ostream& o, double v) { char b[64]; snprintf(b, 64, "%.17g ", v); o << b; } };
template <class T> struct IOInt { static T rd(istream& i) { long long v; i >> v; return (T)v; } static void wr(ostream& o, T v) { o << (long long)v << ' '; } };
template <> struct IO<int> : IOInt<int> {}; template <> struct IO<long> : IOInt<long> {}; template <> struct IO<unsigned long> : IOInt<unsigned long> {}; template <> struct IO<unsigned> : IOInt<unsigned> {};
template <> struct IO<bool> { static bool rd(istream& i) { int v; i >> v; return v != 0; } static void wr(ostream& o, bool v) { o << (v ? 1 : 0) << ' '; } };
template <> struct IO<std::string> { static std::string rd(istream& i) { size_t n; i >> n; i.get(); std::string s(n, ' '); i.read(&s[0], n); return s; }
  static void wr(ostream& o, const std::string& s) { o << s.size() << ' ' << s << ' '; } };
template <class S, int R, int C, int O, int MR, int MC> struct IO<Eigen::Matrix<S, R, C, O, MR, MC>> {
  using T = Eigen::Matrix<S, R, C, O, MR, MC>;
  static T rd(istream& i) { long r, c; i >> r >> c; T m(r, c); for (long a = 0; a < r; a++) for (long b = 0; b < c; b++) m(a, b) = IO<S>::rd(i); return m; }
  static void wr(ostream& o, const T& m) { o << m.rows() << ' ' << m.cols() << ' '; for (long a = 0; a < m.rows(); a++) for (long b = 0; b < m.cols(); b++) IO<S>::wr(o, m(a, b)); } };
template <class T> struct IO<std::vector<T>> {
  static std::vector<T> rd(istream& i) { size_t n; i >> n; std::vector<T> v; for (size_t k = 0; k < n; k++) v.push_back(IO<T>::rd(i)); return v; }
  static void wr(ostream& o, const std::vector<T>& v) { o << v.size() << ' '; for (size_t k = 0; k < v.size(); k++) { T x = v[k]; IO<T>::wr(o, x); } } };
template <class A, class B> struct IO<std::pair<A, B>> { static std::pair<A, B> rd(istream& i) { A a = IO<A>::rd(i); B b = IO<B>::rd(i); return {a, b}; } static void wr(ostream& o, const std::pair<A, B>& p) { IO<A>::wr(o, p.first); IO<B>::wr(o, p.second); } };
template <class... A> struct IO<std::tuple<A...>> { static std::tuple<A...> rd(istream& i) { return std::tuple<A...>{IO<A>::rd(i)...}; }
  static void wr(ostream& o, const std::tuple<A...>& t) { std::apply([&](const A&... x) { (IO<A>::wr(o, x), ...); }, t); } };
template <class K, class W> struct IO<std::map<K, W>> { static std::map<K, W> rd(istream& i) { size_t n; i >> n; std::map<K, W> m; for (size_t k = 0; k < n; k++) { K a = IO<K>::rd(i); m[a] = IO<W>::rd(i); } return m; }
  static void wr(ostream& o, const std::map<K, W>& m) { o << m.size() << ' '; for (auto& p : m) { IO<K>::wr(o, p.first); IO<W>::wr(o, p.second); } } };
template <class K> struct IO<std::set<K>> { static std::set<K> rd(istream& i) { size_t n; i >> n; std::set<K> m; for (size_t k = 0; k < n; k++) m.insert(IO<K>::rd(i)); return m; }
  static void wr(ostream& o, const std::set<K>& m) { o << m.size() << ' '; for (auto& p : m) IO<K>::wr(o, p); } };
template <class R, class... A> std::function<void(istream&, ostream&)> wrap(R (*f)(A...)) {
  return [f](istream& i, ostream& o) {
    std::tuple<std::decay_t<A>...> a{IO<std::decay_t<A>>::rd(i)...};
    R r = std::apply(f, a);
    IO<std::decay_t<R>>::wr(o, r);
  };
}
}
static void on_alarm(int) { const char m[] = "\n@TIMEOUT\n"; (void)!write(3, m, sizeof m - 1); _exit(97); }
int main() {
  std::map<std::string, std::function<void(std::istream&, std::ostream&)>> T;
#define REG(x) T[#x] = vrun::wrap(&openml_client::x);
  REGISTER
  signal(SIGPROF, on_alarm);
  FILE* res = fdopen(3, "w");
  std::string line;
  while (std::getline(std::cin, line)) {
    // line: id name seed nbytes ; followed by payload
    std::istringstream h(line); long id; std::string name; unsigned seed; double lim;
    h >> id >> name >> seed >> lim;
    std::string payload; std::getline(std::cin, payload, '\x1e'); { std::string nl; std::getline(std::cin, nl); }
    fprintf(res, "@BEGIN %ld\n", id); fflush(res);
    std::srand(seed); openml_client::vf_seed = seed; openml_client::vf_failed.clear(); openml_client::vf_big = 0;
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = (long)lim; setitimer(ITIMER_PROF, &tv, nullptr);
    std::istringstream in(payload); std::ostringstream out;
    std::string status = "ok", what;
    try { T.at(name)(in, out); }
    catch (const std::out_of_range& e) { status = "throw"; what = std::string("out_of_range: ") + e.what(); }
    catch (const std::exception& e) { status = std::string(e.what()).rfind("eigen_assert", 0) == 0 ? "assert" : "throw"; what = e.what(); }
    catch (...) { status = "throw"; what = "unknown"; }
    if (!openml_client::vf_failed.empty()) { status = "assert"; what = openml_client::vf_failed; }
    for (auto& ch : what) if (ch == '\n') ch = ' ';
    memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr);
    std::string o = out.str();
    fprintf(res, "@END %ld %s %zu %s\n", id, status.c_str(), o.size(), what.c_str());
    fwrite(o.data(), 1, o.size(), res); fputc('\n', res); fflush(res);
  }
  fflush(res);
  _exit(0);
}
