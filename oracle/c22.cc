// C22: eigendecomposition strategies on random symmetric matrices, and library failures
#include "oracle.h"
#include <map>
// LAPACK calls are intercepted to check arguments and to inject failures
static int inject = 0;       // info of a decomposition
static int inject_query = 0; // info of a workspace query
static unsigned queries = 0, calls = 0;
#define ARGS_D const char &job, const char &uplo, const int &n, double A[], const int &lda, double w[], double work[], const int &lwork, int iwork[], const int &liwork, int &info
#define ARGS_R const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda, const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[], double Z[], const int &ldz, int isupp[], double work[], const int &lwork, int iwork[], const int &liwork, int &info
#define ARGS_X const char &job, const char &range, const char &uplo, const int &n, double A[], const int &lda, const double &vl, const double &vu, const int &il, const int &iu, const double &abstol, int &m, double w[], double Z[], const int &ldz, double work[], const int &lwork, int iwork[], int ifail[], int &info
extern "C"
{
  void real_d (ARGS_D) __asm__ ("dsyevd_");
  void real_r (ARGS_R) __asm__ ("dsyevr_");
  void real_x (ARGS_X) __asm__ ("dsyevx_");
  static bool
  fail (const int &lwork, int &info)
  {
    const bool q = lwork == -1;
    (q ? queries : calls)++;
    const int i = q ? inject_query : inject;
    if (i != 0)
      info = i;
    return i != 0;
  }
  void
  fake_dsyevd_ (ARGS_D)
  {
    real_d (job, uplo, n, A, lda, w, work, lwork, iwork, liwork, info);
    fail (lwork, info);
  }
  void
  fake_dsyevr_ (ARGS_R)
  {
    real_r (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, isupp, work, lwork, iwork, liwork, info);
    fail (lwork, info);
  }
  void
  fake_dsyevx_ (ARGS_X)
  {
    real_x (job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, work, lwork, iwork, ifail, info);
    fail (lwork, info);
  }
}
#define dsyevd_ fake_dsyevd_
#define dsyevr_ fake_dsyevr_
#define dsyevx_ fake_dsyevx_
#include "core/decompose.cxx"
#undef dsyevd_
#undef dsyevr_
#undef dsyevx_
using namespace especia;

template <class D>
static void
run (const char *name, orc::Rng &r, bool expert = false)
{
  const unsigned n = r.n (0, 5) == 0 ? r.n (1, 40) : r.n (1, 8);
  std::vector<double> A (n * n), q (n * n, 0.0);
  const unsigned kind = r.n (0, 6);
  const double scale = std::pow (10.0, r.u (-6, 6));
  for (unsigned i = 0; i < n; i++)
    for (unsigned j = 0; j <= i; j++)
      {
        double x = r.u (-1, 1) * scale;
        if (kind == 0)
          x = i == j ? scale : 0; // multiple of the identity
        if (kind == 1)
          x = i == j ? std::pow (10.0, r.u (-8, 8)) : 0; // diagonal
        if (kind == 2)
          x = scale; // rank one
        if (kind == 3)
          x = 0;
        A[i * n + j] = A[j * n + i] = x;
      }
  orc::begin ("%s n=%u kind=%u first=%.17g seed=%lu", name, n, kind, A[0], orc::seed);
  D d (n);
  const unsigned rounds = r.n (1, 3);
  for (unsigned k = 0; k < rounds; k++)
    {
      if (k)
        for (unsigned i = 0; i < n; i++)
          for (unsigned j = 0; j <= i; j++)
            A[i * n + j] = A[j * n + i] = A[i * n + j] + r.u (-1, 1) * scale;
      std::vector<double> B (A);
      std::vector<double> Z (n * n, -7), w (n, -7);
      d (A.data (), Z.data (), w.data ());
      double norm = 0;
      for (double x : A)
        norm = std::max (norm, std::fabs (x));
      const double tol = 1e-10 * n * norm + 1e-300;
      if (A != B)
        orc::witness ("round %u: the input matrix was modified", k);
      for (unsigned i = 0; i + 1 < n; i++)
        if (!(w[i] <= w[i + 1]))
          orc::witness ("round %u: eigenvalues %u and %u are not ascending: %.17g %.17g", k, i, i + 1, w[i], w[i + 1]);
      if (expert && kind <= 3)
        {
          // inverse iteration is inaccurate for degenerate matrices: compare with the library itself
          std::vector<double> C (B), Y (n * n), v (n), work (1);
          std::vector<int> iwork (5 * n), ifail (n);
          int m = 0, info = 0, lwork = -1;
          const double abstol = 2 * std::numeric_limits<double>::min ();
          real_x ('V', 'A', 'U', n, C.data (), n, 0, 0, 0, 0, abstol, m, v.data (), Y.data (), n, work.data (), lwork, iwork.data (), ifail.data (), info);
          work.resize (lwork = work[0]);
          real_x ('V', 'A', 'U', n, C.data (), n, 0, 0, 0, 0, abstol, m, v.data (), Y.data (), n, work.data (), lwork, iwork.data (), ifail.data (), info);
          for (unsigned i = 0; i < n; i++)
            if (!(std::fabs (v[i] - w[i]) <= tol))
              orc::witness ("round %u: eigenvalue %u is %.17g, the library gives %.17g", k, i, w[i], v[i]);
          continue;
        }
      for (unsigned i = 0; i < n; i++)
        for (unsigned j = 0; j < n; j++)
          {
            double s = 0, t = 0;
            for (unsigned l = 0; l < n; l++)
              s += Z[i * n + l] * Z[j * n + l], t += A[j * n + l] * Z[i * n + l];
            if (!(std::fabs (s - (i == j)) < 1e-10 * n))
              orc::witness ("round %u: eigenvectors %u and %u are not orthonormal (%.3g)", k, i, j, s);
            if (!(std::fabs (t - w[i] * Z[i * n + j]) <= tol))
              orc::witness ("round %u: eigenvector %u does not match eigenvalue %.17g (residual %.3g)", k, i, w[i], t - w[i] * Z[i * n + j]);
          }
    }
}

template <class D>
static void
failures (const char *name, orc::Rng &r)
{
  const unsigned n = r.n (1, 6);
  std::vector<double> A (n * n, 0.0), Z (n * n), w (n);
  for (unsigned i = 0; i < n; i++)
    A[i * n + i] = i + 1;
  for (int info : { 1, -1, int (r.n (1, 50)), -int (r.n (1, 50)) })
    {
      orc::begin ("%s n=%u library reports info=%d", name, n, info);
      D d (n);
      bool runtime = false, logic = false;
      inject = info;
      try
        {
          d (A.data (), Z.data (), w.data ());
        }
      catch (std::runtime_error &)
        {
          runtime = true;
        }
      catch (std::invalid_argument &)
        {
          logic = true;
        }
      inject = 0;
      if (!runtime && !logic)
        orc::witness ("no error is raised");
      runtime = logic = false;
      orc::begin ("%s n=%u workspace query reports info=%d", name, n, info);
      const unsigned q = queries;
      inject_query = info;
      try
        {
          D e (n);
        }
      catch (std::exception &)
        {
          runtime = true;
        }
      inject_query = 0;
      if (queries > q && !runtime)
        orc::witness ("no error is raised");
    }
}

void
check (orc::Rng &r)
{
  do
    {
      run<D_Decompose> ("D_Decompose", r);
      run<R_Decompose> ("R_Decompose", r);
      run<X_Decompose> ("X_Decompose", r, true);
      failures<D_Decompose> ("D_Decompose", r);
      failures<R_Decompose> ("R_Decompose", r);
      failures<X_Decompose> ("X_Decompose", r);
    }
  while (orc::more ());
}
