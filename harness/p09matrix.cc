// The compressed matrix and the factorization session: every sequence of
// operations up to a depth, against a plain dense matrix and a monitored
// factorization library.
// ASAN: math/CompressedMatrix math/Matrix math/MKLPardisoPreconditioner math/Preconditioner math/DirectLinearSolver math/LinearSolver
// OBJS: core.a
// XFLAGS: -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1
// LIBS: -fsanitize=address
//
// usage: p09matrix matrix|session DEPTH NPARTS PART
#include "CompressedMatrix.hh"
#include "MKLPardisoPreconditioner.hh"
#include "DirectLinearSolver.hh"
#include "OutputStream.hh"
#include "dsException.hh"
#include "Float128.hh"
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace dsMath;

typedef float128 Q;
static size_t sequences, transitions, checked, violations;
static std::vector<std::string> trail;
static std::set<std::string> seen;

static void bad(const std::string &what)
{
  ++violations;
  if (!seen.insert(what).second) return;
  printf("BAD");
  for (auto &t : trail) printf(" %s", t.c_str());
  printf(" :: %s\n", what.c_str());
  fflush(stdout);
}

extern "C" void __asan_on_error()
{
  bad("memory is used that is not there");
}

//// what the libraries need of the program
void OutputStream::WriteOut(OutputType t, const std::string &s) { if (t == OutputType::FATAL) throw dsException(s); }
void OutputStream::WriteOut(OutputType t, Verbosity_t, const std::string &s) { WriteOut(t, s); }
OutputStream::Verbosity_t OutputStream::GetVerbosity(const std::string &) { return Verbosity_t::V0; }

//// ---------------------------------------------------- the dense reference
struct Dense {
  int n;
  std::vector<Q> re, im;
  explicit Dense(int n_) : n(n_), re(n_ * n_), im(n_ * n_) {}
  void clear() { for (auto &x : re) x = 0; for (auto &x : im) x = 0; }
};

//// ---------------------------------------------------- the matrix
struct Op { char what; int r, c; double v, w; };   // a real entry, i imaginary entry, z complex entry, C clear, F finalize
static std::string name(const Op &o)
{
  char b[80];
  if (o.what == 'C') return "clear";
  if (o.what == 'F') return "finalize";
  if (o.what == 'S') return "solve";
  if (o.what == 'N') return "new,solve";
  snprintf(b, sizeof b, "%c(%d,%d,%g%s%g)", o.what, o.r, o.c, o.v, o.w < 0 ? "" : "+", o.w);
  return b;
}

static const Q fine = Q("8.271806125530277e-25");   // 2^-80

template <typename T> T value(double v);
template <> double value<double>(double v) { return v; }
template <> Q value<Q>(double v) { return v == 0 ? Q(0) : Q(v) + fine; }

template <typename T>
static void add(CompressedMatrix<T> &m, Dense &d, const Op &o)
{
  const int k = o.r * d.n + o.c;
  const T v = value<T>(o.v), w = value<T>(o.w);
  if (o.what == 'a') { m.AddEntry(o.r, o.c, v); d.re[k] += Q(v); }
  else if (o.what == 'i') { m.AddImagEntry(o.r, o.c, v); d.im[k] += Q(v); }
  else if (o.what == 'z') { m.AddEntry(o.r, o.c, ComplexDouble_t<T>(v, w)); d.re[k] += Q(v); d.im[k] += Q(w); }
}

template <typename T> struct Pattern { IntVec_t ap, ai; bool any = false; };

template <typename T>
static void verify(CompressedMatrix<T> &m, const Dense &d, Pattern<T> &last, bool csc, bool cplx, bool products)
{
  ++checked;
  const int n = d.n;
  const IntVec_t &p = csc ? m.GetCols() : m.GetRows();
  const IntVec_t &x = csc ? m.GetRows() : m.GetCols();
  const auto &re = m.GetReal();
  if (p.size() != size_t(n + 1) || p[0] != 0) { bad("the pointers have the wrong length or base"); return; }
  if (p[n] != (int)x.size() || re.size() != x.size() || (cplx && m.GetImag().size() != x.size())) { bad("the arrays have different lengths"); return; }
  if (&m.GetAp() != &p && m.GetAp() != p) bad("Ap differs from the pointers");
  if (m.GetAi() != x) bad("Ai differs from the indexes");
  std::vector<Q> dr(n * n), di(n * n);
  for (int i = 0; i < n; ++i)
  {
    if (p[i + 1] < p[i]) { bad("the pointers are not ascending"); return; }
    for (int k = p[i]; k < p[i + 1]; ++k)
    {
      if (x[k] < 0 || x[k] >= n) { bad("an index is out of range"); return; }
      if (k > p[i] && x[k] <= x[k - 1]) { bad("the indexes are not strictly ascending"); return; }
      const int at = csc ? x[k] * n + i : i * n + x[k];
      dr[at] += Q(re[k]);
      if (cplx) di[at] += Q(m.GetImag()[k]);
    }
  }
  for (int k = 0; k < n * n; ++k)
  {
    if (dr[k] != d.re[k]) bad("a real entry differs from the dense matrix");
    if (cplx && di[k] != d.im[k]) bad("an imaginary entry differs from the dense matrix");
  }
  if (cplx)
  {
    const auto &z = m.GetComplex();
    bool ok = z.size() == x.size();
    for (size_t k = 0; ok && k < z.size(); ++k) ok = z[k].real() == re[k] && z[k].imag() == m.GetImag()[k];
    if (!ok) bad("the complex entries differ from the real and imaginary ones");
  }
  if (last.any && m.GetSymbolicStatus() == SymbolicStatus_t::SAME_SYMBOLIC && (last.ap != m.GetAp() || last.ai != m.GetAi()))
    bad("the structure changed and is said to be the same");
  if (!last.any && m.GetSymbolicStatus() == SymbolicStatus_t::SAME_SYMBOLIC) bad("the first structure is said to be the same");
  last.ap = m.GetAp(); last.ai = m.GetAi(); last.any = true;
  if (!products) return;
  for (int t = 0; t < 2; ++t)
  {
    // every unit vector and one full vector
    for (int e = 0; e <= n; ++e)
    {
      if (!cplx)
      {
        DoubleVec_t<T> v(n), y;
        for (int i = 0; i < n; ++i) v[i] = e == n ? T(i + 2) : T(i == e);
        if (t) m.TransposeMultiply(v, y); else m.Multiply(v, y);
        bool ok = y.size() == size_t(n);
        for (int i = 0; ok && i < n; ++i)
        {
          T s = 0;
          for (int j = 0; j < n; ++j) s += T(d.re[t ? j * n + i : i * n + j]) * v[j];
          ok = s == y[i];
        }
        if (!ok) bad(t ? "a transposed product differs from the dense one" : "a product differs from the dense one");
      }
      else
      {
        ComplexDoubleVec_t<T> v(n), y;
        for (int i = 0; i < n; ++i) v[i] = e == n ? ComplexDouble_t<T>(T(i + 2), T(1 - i)) : ComplexDouble_t<T>(T(0), T(i == e));
        if (t) m.TransposeMultiply(v, y); else m.Multiply(v, y);
        bool ok = y.size() == size_t(n);
        for (int i = 0; ok && i < n; ++i)
        {
          T s = 0, u = 0;
          for (int j = 0; j < n; ++j)
          {
            const int k = t ? j * n + i : i * n + j;
            s += T(d.re[k]) * v[j].real() - T(d.im[k]) * v[j].imag();
            u += T(d.re[k]) * v[j].imag() + T(d.im[k]) * v[j].real();
          }
          ok = s == y[i].real() && u == y[i].imag();
        }
        if (!ok) bad(t ? "a complex transposed product differs from the dense one" : "a complex product differs from the dense one");
      }
    }
  }
}

template <typename T>
static void enumerate(const char *what, int n, bool csc, bool cplx, const std::vector<Op> &ops, int depth, int nparts, int part)
{
  std::vector<int> seq(depth, 0);
  const int N = ops.size();
  long long total = 1;
  for (int i = 0; i < depth; ++i) total *= N;
  // the first operations choose the part
  for (long long id = 0; id < total; ++id)
  {
    long long x = id;
    for (int i = depth; i-- > 0; ) { seq[i] = x % N; x /= N; }
    if ((seq[0] * N + (depth > 1 ? seq[1] : 0)) % nparts != part) continue;
    // a sequence whose end was looked at as the end of a shorter one adds nothing
    trail.clear();
    trail.push_back(what);
    CompressedMatrix<T> m(n, cplx ? MatrixType::COMPLEX : MatrixType::REAL, csc ? CompressionType::CCM : CompressionType::CRM);
    Dense d(n);
    Pattern<T> last;
    ++sequences;
    for (int i = 0; i < depth; ++i)
    {
      const Op &o = ops[seq[i]];
      trail.push_back(name(o));
      ++transitions;
      if (o.what == 'C') { m.ClearMatrix(); d.clear(); }
      else if (o.what == 'F') { m.Finalize(); verify(m, d, last, csc, cplx, i + 1 == depth); }
      else add(m, d, o);
    }
    trail.push_back("finalize");
    m.Finalize();
    verify(m, d, last, csc, cplx, true);
  }
}

static std::vector<Op> alphabet(int n, bool cplx)
{
  std::vector<Op> r;
  if (n == 2)
  {
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j)
    {
      r.push_back({'a', i, j, 1, 0});
      if (cplx) r.push_back({'i', i, j, 2, 0});
      else r.push_back({'a', i, j, -1, 0});
    }
    r.push_back({'a', 0, 1, 0, 0});
    if (cplx) { r.push_back({'z', 1, 0, 1, -2}); r.push_back({'i', 0, 0, -2, 0}); r.push_back({'z', 0, 1, 0, 3}); }
  }
  else
  {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
      if (cplx) { if ((i + j) % 2 == 0) r.push_back({'z', i, j, double(1 + i), double(j - 1)}); else r.push_back({'i', i, j, 1, 0}); }
      else r.push_back({'a', i, j, double(1 + i * 3 + j), 0});
    }
  }
  r.push_back({'C', 0, 0, 0, 0});
  r.push_back({'F', 0, 0, 0, 0});
  return r;
}

//// ---------------------------------------------------- the monitored library
namespace {
typedef std::complex<double> Z;
struct Session {
  bool analysed = false, factored = false, cplx = false;
  int n = 0;
  std::vector<int> ia, ja;
  std::vector<Z> vals, lu;
};
std::map<void *, Session> sessions;
size_t calls[3], releases;
int fault_phase = -1, fault_at = -1, fault_code = 0;
bool faulted;

bool solve_dense(int n, std::vector<Z> a, std::vector<Z> b, std::vector<Z> &x)
{
  for (int j = 0; j < n; ++j)
  {
    int p = j;
    for (int i = j; i < n; ++i) if (std::abs(a[i * n + j]) > std::abs(a[p * n + j])) p = i;
    if (std::abs(a[p * n + j]) < 1e-12) return false;
    for (int k = 0; k < n; ++k) std::swap(a[p * n + k], a[j * n + k]);
    std::swap(b[p], b[j]);
    for (int i = 0; i < n; ++i)
    {
      if (i == j) continue;
      Z f = a[i * n + j] / a[j * n + j];
      for (int k = 0; k < n; ++k) a[i * n + k] -= f * a[j * n + k];
      b[i] -= f * b[j];
    }
  }
  x.resize(n);
  for (int i = 0; i < n; ++i) x[i] = b[i] / a[i * n + i];
  return true;
}
}

extern "C" void PARDISO(void *pt, const int *, const int *, const int *mtype, const int *phase, const int *n, const void *a,
                        const int *ia, const int *ja, int *, const int *nrhs, int *iparm, const int *, void *b, void *x, int *error)
{
  *error = 0;
  if (*phase == -1) { ++releases; sessions.erase(pt); return; }
  const int idx = *phase == 11 ? 0 : *phase == 22 ? 1 : *phase == 33 ? 2 : -1;
  if (idx < 0) { bad("library: unknown phase"); *error = -1; return; }
  const bool cplx = *mtype == 13;
  if (!cplx && *mtype != 11) { bad("library: unknown matrix type"); *error = -1; return; }
  Session &s = sessions[pt];
  const int N = *n;
  if (idx == fault_phase && (int)calls[idx]++ == fault_at) { *error = fault_code; faulted = true; if (idx < 2) s.factored = false; if (idx < 1) s.analysed = false; return; }
  if (idx != fault_phase) ++calls[idx];
  const int base = iparm[34] == 1 ? 0 : 1;
  if (base != 0) { bad("library: index base"); *error = -1; return; }
  if (idx == 0)
  {
    s.analysed = true; s.factored = false; s.cplx = cplx; s.n = N;
    s.ia.assign(ia, ia + N + 1); s.ja.assign(ja, ja + ia[N]);
    return;
  }
  if (!s.analysed) { bad("library: used before the analysis"); *error = -3; return; }
  if (s.n != N || s.cplx != cplx) { bad("library: size or type differs from the analysis"); *error = -3; return; }
  if (!std::equal(s.ia.begin(), s.ia.end(), ia) || !std::equal(s.ja.begin(), s.ja.end(), ja)) { bad("library: structure differs from the one analysed"); *error = -3; return; }
  const int nnz = ia[N];
  std::vector<Z> v(nnz);
  for (int k = 0; k < nnz; ++k) v[k] = cplx ? ((const Z *)a)[k] : Z(((const double *)a)[k]);
  if (idx == 1)
  {
    s.vals = v;
    s.factored = false;
    s.lu.assign(N * N, Z(0));
    for (int r = 0; r < N; ++r) for (int k = ia[r]; k < ia[r + 1]; ++k) s.lu[r * N + ja[k]] = v[k];
    std::vector<Z> t;
    if (!solve_dense(N, s.lu, std::vector<Z>(N), t)) { *error = -4; return; }
    s.factored = true;
    return;
  }
  if (!s.factored) { bad("library: solve without a factorization"); *error = -3; return; }
  // steps of iterative refinement, which the default iparm(8) asks for, read the matrix again
  if (v != s.vals) bad("library: the matrix is not the one factored when it is solved with");
  if (*nrhs != 1) bad("library: number of right hand sides");
  std::vector<Z> A = s.lu, B(N), X;
  if (iparm[11] == 2) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A[i * N + j] = s.lu[j * N + i]; }
  else if (iparm[11] == 1) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A[i * N + j] = std::conj(s.lu[j * N + i]); }
  for (int i = 0; i < N; ++i) B[i] = cplx ? ((Z *)b)[i] : Z(((double *)b)[i]);
  solve_dense(N, A, B, X);
  for (int i = 0; i < N; ++i) { if (cplx) ((Z *)x)[i] = X[i]; else ((double *)x)[i] = X[i].real(); }
}

//// ---------------------------------------------------- sessions
static Z toz(const Q &r, const Q &i) { return Z(static_cast<double>(r), static_cast<double>(i)); }

template <typename T>
static bool linear(DirectLinearSolver<T> &ls, CompressedMatrix<T> &m, Preconditioner<T> &p, const std::vector<Z> &b, std::vector<Z> &x, bool cplx, bool noise)
{
  const size_t n = b.size();
  x.clear();
  bool ret;
  if (cplx)
  {
    ComplexDoubleVec_t<T> B(n), X;
    for (size_t i = 0; i < n; ++i) B[i] = ComplexDouble_t<T>(T(b[i].real()), T(b[i].imag()));
    ret = noise ? ls.NoiseSolve(m, p, X, B) : ls.ACSolve(m, p, X, B);
    for (auto &e : X) x.push_back(Z(static_cast<double>(e.real()), static_cast<double>(e.imag())));
  }
  else
  {
    DoubleVec_t<T> B(n), X;
    for (size_t i = 0; i < n; ++i) B[i] = T(b[i].real());
    ret = ls.Solve(m, p, X, B);
    for (auto &e : X) x.push_back(static_cast<double>(e));
  }
  return ret;
}

template <typename T>
static void sessions_of(const char *what, bool cplx, bool trans, const std::vector<Op> &ops, int depth, int fp, int fa, int fc, int nparts, int part)
{
  const int N = ops.size(), n = 2;
  long long total = 1;
  for (int i = 0; i < depth; ++i) total *= N;
  std::vector<int> seq(depth);
  for (long long id = 0; id < total; ++id)
  {
    long long q = id;
    for (int i = depth; i-- > 0; ) { seq[i] = q % N; q /= N; }
    if ((seq[0] * N + seq[1]) % nparts != part) continue;
    int nsolve = 0, lastsolve = -1;
    for (int i = 0; i < depth; ++i) if (ops[seq[i]].what == 'S' || ops[seq[i]].what == 'N') { ++nsolve; lastsolve = i; }
    // what follows the last solve is not observed: the sequence is one of a smaller depth, padded
    if (lastsolve != depth - 1) continue;
    if (fp >= 0 && nsolve <= fa) continue;
    trail.clear(); trail.push_back(what);
    if (fp >= 0) { char t[60]; snprintf(t, sizeof t, "fault(phase %d, call %d, %d)", fp, fa, fc); trail.push_back(t); }
    ++sequences;
    memset(calls, 0, sizeof calls); releases = 0; faulted = false;
    fault_phase = fp; fault_at = fa; fault_code = fc;
    sessions.clear();
    {
      auto m = std::make_unique<CompressedMatrix<T>>(n, cplx ? MatrixType::COMPLEX : MatrixType::REAL, CompressionType::CCM);
      Dense d(n);
      DirectLinearSolver<T> ls;
      std::unique_ptr<Preconditioner<T>> p(new MKLPardisoPreconditioner<T>(n, trans ? PEnum::TransposeType_t::TRANS : PEnum::TransposeType_t::NOTRANS));
      if ((cplx ? p->GetComplexMatrixCompressionType() : p->GetRealMatrixCompressionType()) != CompressionType::CCM) bad("another format is asked for");
      int k = 0;
      for (int i = 0; i < depth; ++i)
      {
        const Op &o = ops[seq[i]];
        trail.push_back(name(o));
        ++transitions;
        if (o.what == 'C') { m->ClearMatrix(); d.clear(); continue; }
        if (o.what != 'S' && o.what != 'N') { add(*m, d, o); continue; }
        m->Finalize();
        if (o.what == 'N') m->SetSymbolicStatus(SymbolicStatus_t::NEW_SYMBOLIC);
        ++k;
        std::vector<Z> A(n * n), b(n), x, want;
        for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) A[r * n + c] = trans ? toz(d.re[c * n + r], d.im[c * n + r]) : toz(d.re[r * n + c], d.im[r * n + c]);
        for (int r = 0; r < n; ++r) b[r] = cplx ? Z(1 + r + k, 2 - 3 * r) : Z(1 + r * 2 + k);
        const bool regular = solve_dense(n, A, b, want);
        bool ok = false, refused = false;
        ++checked;
        try { ok = linear(ls, *m, *p, b, x, cplx, trans); }
        catch (dsException &) { refused = true; }
        if (faulted)
        {
          if (ok) bad("a failure of the library is not reported");
          break;
        }
        if (!regular)
        {
          if (ok) bad("a singular matrix is not reported");
          break;
        }
        if (!ok) { bad(refused ? "a regular system is refused" : "a regular system is said to fail"); break; }
        bool same = x.size() == size_t(n);
        for (int r = 0; same && r < n; ++r) same = std::abs(x[r] - want[r]) < 1e-9;
        if (!same) bad(trans ? "the answer does not solve the transposed system" : "the answer does not solve the system");
      }
      m.reset();
    }
    if (releases != 1 || !sessions.empty()) bad("the session is not released exactly once");
  }
}

static std::vector<Op> session_alphabet(bool cplx, bool full)
{
  std::vector<Op> r = {{'a', 0, 0, 2, 0}, {'a', 1, 1, 3, 0}, {'a', 0, 1, 1, 0}};
  if (full || !cplx) r.push_back({'a', 1, 0, -1, 0});
  if (cplx) { r.push_back({'z', 1, 0, -1, 2}); r.push_back({'i', 0, 0, 1, 0}); }
  r.push_back({'C', 0, 0, 0, 0});
  r.push_back({'S', 0, 0, 0, 0});
  r.push_back({'N', 0, 0, 0, 0});
  return r;
}

int main(int argc, char **argv)
{
  if (argc != 5) return 2;
  const std::string mode = argv[1];
  const int depth = atoi(argv[2]), nparts = atoi(argv[3]), part = atoi(argv[4]);
  if (mode == "matrix")
  {
    for (int n = 2; n <= 3; ++n) for (int csc = 0; csc < 2; ++csc) for (int cplx = 0; cplx < 2; ++cplx)
    {
      char w[80];
      const auto ops = alphabet(n, cplx);
      snprintf(w, sizeof w, "%dx%d,%s,%s,double", n, n, csc ? "csc" : "csr", cplx ? "complex" : "real");
      enumerate<double>(w, n, csc, cplx, ops, depth, nparts, part);
      snprintf(w, sizeof w, "%dx%d,%s,%s,extended", n, n, csc ? "csc" : "csr", cplx ? "complex" : "real");
      enumerate<Q>(w, n, csc, cplx, ops, depth - 1, nparts, part);
    }
  }
  else
  {
    for (int cplx = 0; cplx < 2; ++cplx) for (int trans = 0; trans <= cplx; ++trans)
    {
      char w[80];
      const auto ops = session_alphabet(cplx, depth > 6);
      for (int dd = 2; dd <= depth; ++dd)
      {
        snprintf(w, sizeof w, "%s%s,double", cplx ? "complex" : "real", trans ? ",transposed" : "");
        sessions_of<double>(w, cplx, trans, ops, dd, -1, -1, 0, nparts, part);
        snprintf(w, sizeof w, "%s%s,extended", cplx ? "complex" : "real", trans ? ",transposed" : "");
        if (dd < depth) sessions_of<Q>(w, cplx, trans, ops, dd, -1, -1, 0, nparts, part);
        if (dd + 1 >= depth) continue;
        // a failure of every phase at the first or a later call
        for (int fp = 0; fp < 3; ++fp) for (int fa = 0; fa < 3; ++fa) for (int fc : {-4, -2})
        {
          snprintf(w, sizeof w, "%s%s,double", cplx ? "complex" : "real", trans ? ",transposed" : "");
          sessions_of<double>(w, cplx, trans, ops, dd, fp, fa, fc, nparts, part);
          snprintf(w, sizeof w, "%s%s,extended", cplx ? "complex" : "real", trans ? ",transposed" : "");
          if (dd + 2 < depth) sessions_of<Q>(w, cplx, trans, ops, dd, fp, fa, fc, nparts, part);
        }
      }
    }
  }
  printf("SUMMARY sequences=%zu transitions=%zu checked=%zu violations=%zu\n", sequences, transitions, checked, violations);
  return 0;
}
