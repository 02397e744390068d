// Small reference BLAS/LAPACK/PARDISO provider loaded by devsim through
// DEVSIM_MATH_LIBS (no vendor math library exists in this sandbox).
// The PARDISO entry point is a dense LU with full monitoring of the calling
// protocol: it records a fault when a numeric factorization is requested with
// a sparsity pattern other than the one analysed, or a solve without a factor.
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#define EXPORT extern "C" __attribute__((visibility("default")))
typedef std::complex<double> zdouble;

static double mag(double x) { return std::fabs(x); }
static double mag(const zdouble &x) { return std::fabs(x.real()) + std::fabs(x.imag()); }

template <typename T> static void getrf(int m, int n, T *a, int lda, int *ipiv, int *info)
{
  *info = 0;
  int k = m < n ? m : n;
  for (int j = 0; j < k; ++j)
  {
    int p = j;
    for (int i = j + 1; i < m; ++i) { if (mag(a[i + j * lda]) > mag(a[p + j * lda])) p = i; }
    ipiv[j] = p + 1;
    if (a[p + j * lda] == T(0)) { if (!*info) *info = j + 1; continue; }
    if (p != j) { for (int c = 0; c < n; ++c) std::swap(a[j + c * lda], a[p + c * lda]); }
    for (int i = j + 1; i < m; ++i)
    {
      T l = a[i + j * lda] / a[j + j * lda];
      a[i + j * lda] = l;
      if (l != T(0)) { for (int c = j + 1; c < n; ++c) a[i + c * lda] -= l * a[j + c * lda]; }
    }
  }
}

template <typename T> static void getrs(char tr, int n, int nrhs, const T *a, int lda, const int *ipiv, T *b, int ldb, int *info)
{
  *info = 0;
  for (int r = 0; r < nrhs; ++r)
  {
    T *x = b + r * ldb;
    if (tr == 'N' || tr == 'n')
    {
      for (int i = 0; i < n; ++i) { int p = ipiv[i] - 1; if (p != i) std::swap(x[i], x[p]); }
      for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) x[i] -= a[i + j * lda] * x[j]; }
      for (int i = n; i-- > 0;) { for (int j = i + 1; j < n; ++j) x[i] -= a[i + j * lda] * x[j]; x[i] /= a[i + i * lda]; }
    }
    else
    {
      for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) x[i] -= a[j + i * lda] * x[j]; x[i] /= a[i + i * lda]; }
      for (int i = n; i-- > 0;) { for (int j = i + 1; j < n; ++j) x[i] -= a[j + i * lda] * x[j]; }
      for (int i = n; i-- > 0;) { int p = ipiv[i] - 1; if (p != i) std::swap(x[i], x[p]); }
    }
  }
}

EXPORT void dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) { getrf(*m, *n, a, *lda, ipiv, info); }
EXPORT void zgetrf_(int *m, int *n, zdouble *a, int *lda, int *ipiv, int *info) { getrf(*m, *n, a, *lda, ipiv, info); }
EXPORT void dgetrs_(char *t, int *n, int *r, double *a, int *lda, int *p, double *b, int *ldb, int *info) { getrs(*t, *n, *r, a, *lda, p, b, *ldb, info); }
EXPORT void zgetrs_(char *t, int *n, int *r, zdouble *a, int *lda, int *p, zdouble *b, int *ldb, int *info) { getrs(*t, *n, *r, a, *lda, p, b, *ldb, info); }

EXPORT void drotg_(double *a, double *b, double *c, double *s)
{
  double roe = std::fabs(*a) > std::fabs(*b) ? *a : *b;
  double scale = std::fabs(*a) + std::fabs(*b);
  if (scale == 0.0) { *c = 1.0; *s = 0.0; *a = 0.0; *b = 0.0; return; }
  double r = scale * std::sqrt((*a / scale) * (*a / scale) + (*b / scale) * (*b / scale));
  r = roe < 0 ? -r : r;
  *c = *a / r; *s = *b / r;
  double z = 1.0;
  if (std::fabs(*a) > std::fabs(*b)) z = *s;
  if (std::fabs(*b) >= std::fabs(*a) && *c != 0.0) z = 1.0 / *c;
  *a = r; *b = z;
}
// c is real in BLAS, the caller passes a complex variable
EXPORT void zrotg_(zdouble *a, zdouble *b, double *c, zdouble *s)
{
  if (std::abs(*a) == 0.0) { *c = 0.0; *s = 1.0; *a = *b; return; }
  double scale = std::abs(*a) + std::abs(*b);
  double norm = scale * std::sqrt(std::norm(*a / scale) + std::norm(*b / scale));
  zdouble alpha = *a / std::abs(*a);
  *c = std::abs(*a) / norm;
  *s = alpha * std::conj(*b) / norm;
  *a = alpha * norm;
}

// ---- monitored PARDISO ----
namespace {
struct Inst {
  std::vector<int> ia, ja;
  bool have_symbolic = false, have_numeric = false;
  std::vector<zdouble> lu;
  std::vector<double> dlu;
  std::vector<int> piv;
  int n = 0, mtype = 0;
};
std::map<void *, Inst *> insts;
long long n_symbolic, n_numeric, n_solve, n_release, n_fault;
char fault[512];
int fail_at = -1;      // fail the k-th numeric factorization from now
int badsol_at = -1;
int symfail_at = -1, solvefail_at = -1;   // fail the k-th analysis, solve
void setfault(const char *s) { ++n_fault; if (!fault[0]) { snprintf(fault, sizeof(fault), "%s", s); } }
// last matrix and rhs seen at the solver boundary (dense, complex)
std::vector<zdouble> last_a, last_b, last_x;
int last_n = 0;
}

EXPORT void mkl_get_version_string(char *s, int l) { memset(s, ' ', l); const char *v = "vmath reference"; memcpy(s, v, strlen(v)); }

EXPORT void PARDISO(void *pt, const int *maxfct, const int *mnum, const int *mtype, const int *phase, const int *n,
                    const void *a, const int *ia, const int *ja, int *, const int *nrhs, int *iparm, const int *,
                    void *b, void *x, int *error)
{
  *error = 0;
  Inst *&ip = insts[pt];
  if (*phase == -1) { ++n_release; delete ip; insts.erase(pt); return; }
  if (!ip) { ip = new Inst; }
  Inst &I = *ip;
  const int N = *n;
  const bool cplx = (*mtype == 13);
  if (*phase == 11)
  {
    ++n_symbolic;
    I.have_symbolic = I.have_numeric = false;
    if (symfail_at >= 0 && symfail_at-- == 0) { *error = -2; return; }
    I.n = N; I.mtype = *mtype;
    I.ia.assign(ia, ia + N + 1); I.ja.assign(ja, ja + ia[N]);
    if (ia[0] != 0) setfault("index base");
    for (int c = 0; c < N; ++c)
    {
      if (ia[c + 1] < ia[c]) setfault("column pointers not monotone");
      for (int k = ia[c]; k < ia[c + 1]; ++k)
      {
        if (ja[k] < 0 || ja[k] >= N) setfault("row index out of range");
        if (k > ia[c] && ja[k] <= ja[k - 1]) setfault("row indices not strictly ascending");
      }
    }
    I.have_symbolic = true; I.have_numeric = false;
    return;
  }
  if (*phase == 22)
  {
    ++n_numeric;
    if (fail_at >= 0 && fail_at-- == 0) { *error = -4; I.have_numeric = false; return; }
    if (!I.have_symbolic) { setfault("numeric factorization without analysis"); *error = -3; return; }
    if (I.n != N || I.mtype != *mtype) { setfault("numeric factorization with other size or type than analysed"); *error = -3; return; }
    if (!std::equal(I.ia.begin(), I.ia.end(), ia) || !std::equal(I.ja.begin(), I.ja.end(), ja))
    { setfault("numeric factorization with other sparsity pattern than analysed"); }
    last_n = N;
    last_a.assign((size_t)N * N, zdouble(0));
    for (int c = 0; c < N; ++c) for (int k = ia[c]; k < ia[c + 1]; ++k)
    {
      last_a[ja[k] + (size_t)c * N] += cplx ? ((const zdouble *)a)[k] : zdouble(((const double *)a)[k]);
    }
    I.piv.assign(N, 0);
    int info = 0;
    if (cplx) { I.lu = last_a; getrf(N, N, I.lu.data(), N, I.piv.data(), &info); }
    else
    {
      I.dlu.resize((size_t)N * N);
      for (size_t k = 0; k < I.dlu.size(); ++k) I.dlu[k] = last_a[k].real();
      getrf(N, N, I.dlu.data(), N, I.piv.data(), &info);
    }
    if (info) { *error = -4; I.have_numeric = false; } else { I.have_numeric = true; }
    return;
  }
  if (*phase == 33)
  {
    ++n_solve;
    if (!I.have_numeric || I.n != N) { setfault("solve without numeric factorization"); *error = -3; return; }
    if (*nrhs != 1) setfault("nrhs");
    if (solvefail_at >= 0 && solvefail_at-- == 0) { *error = -4; return; }
    // stored by column (CCM): the caller passes the transpose of a CRM matrix,
    // iparm[11] == 2 asks for the transposed solve, that is A x = b
    char t = iparm[11] == 2 ? 'N' : 'T';
    int info = 0;
    last_b.assign(N, zdouble(0)); last_x.assign(N, zdouble(0));
    if (cplx)
    {
      memcpy(x, b, sizeof(zdouble) * N);
      for (int i = 0; i < N; ++i) last_b[i] = ((zdouble *)b)[i];
      getrs(t, N, 1, I.lu.data(), N, I.piv.data(), (zdouble *)x, N, &info);
      for (int i = 0; i < N; ++i) last_x[i] = ((zdouble *)x)[i];
    }
    else
    {
      memcpy(x, b, sizeof(double) * N);
      for (int i = 0; i < N; ++i) last_b[i] = ((double *)b)[i];
      getrs(t, N, 1, I.dlu.data(), N, I.piv.data(), (double *)x, N, &info);
      if (badsol_at >= 0 && badsol_at-- == 0) { for (int i = 0; i < N; ++i) ((double *)x)[i] = 1e300; }
      for (int i = 0; i < N; ++i) last_x[i] = ((double *)x)[i];
    }
    return;
  }
  setfault("unknown phase");
  *error = -1;
}

EXPORT void vmath_counts(long long *c) { c[0] = n_symbolic; c[1] = n_numeric; c[2] = n_solve; c[3] = n_release; c[4] = n_fault; c[5] = (long long)insts.size(); }
EXPORT const char *vmath_fault() { return fault; }
EXPORT void vmath_reset() { fault[0] = 0; n_fault = n_symbolic = n_numeric = n_solve = n_release = 0; fail_at = badsol_at = symfail_at = solvefail_at = -1; }
EXPORT void vmath_fail_at(int k) { fail_at = k; }
EXPORT void vmath_symfail_at(int k) { symfail_at = k; }
EXPORT void vmath_solvefail_at(int k) { solvefail_at = k; }
EXPORT void vmath_badsol_at(int k) { badsol_at = k; }
EXPORT int vmath_last_n() { return last_n; }
EXPORT void vmath_last(double *ar, double *ai, double *br, double *bi)
{
  for (size_t i = 0; i < last_a.size(); ++i) { ar[i] = last_a[i].real(); ai[i] = last_a[i].imag(); }
  for (size_t i = 0; i < last_b.size(); ++i) { br[i] = last_b[i].real(); bi[i] = last_b[i].imag(); }
}
