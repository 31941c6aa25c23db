// independent references for the data sections
#include <fstream>
#include <sstream>
#ifdef USE_PRIVATE
#define private public
#endif
#include "section.h"
#undef private
#include "core/section.cxx"
using namespace especia;
typedef long double L;
typedef std::vector<double> Vec;
typedef std::vector<L> VecL;

/// some lines in the optical depth
struct Tau
{
  Vec c, b, a;
  double base;
  mutable long calls = 0;
  double
  operator() (double x) const
  {
    calls++;
    double t = base;
    for (size_t i = 0; i < c.size (); i++)
      t += a[i] * std::exp (-(x - c[i]) * (x - c[i]) / (b[i] * b[i]));
    return t;
  }
};

/// the convolution, from its definition
struct Conv
{
  VecL opt, atm, cat;
  long s;
};

static L
conv_at (const VecL &X, long at, L d, L w, L h, long M)
{
  const long m = X.size ();
  auto ext = [&] (long i) { return X[i < 0 ? 0 : i >= m ? m - 1 : i]; };
  (void)ext;
  const L b = h / std::sqrt (std::log (2.0L)), pi = std::acos (-1.0L);
  // pieces of one spacing on either side; beyond the ends the first (last) piece is repeated
  L sum = 0;
  for (long j = 0; j < M; j++)
    {
      const L x0 = j * w, x1 = (j + 1) * w;
      const L P = (std::erf (x1 / b) - std::erf (x0 / b)) / 2;
      const L Q = -(std::exp (-(x1 / b) * (x1 / b)) - std::exp (-(x0 / b) * (x0 / b))) * b / std::sqrt (pi) / 2;
      const long k = std::max (at - j - 1, 0L), l = std::min (at + j, m - 2);
      // right: X[l] + (X[l+1] - X[l]) (x/w - j); left: X[k+1] - (X[k+1] - X[k]) (x/w - j)
      const L sr = X[l + 1] - X[l], sl = X[k + 1] - X[k];
      sum += P * (X[l] - sr * j) + Q / w * sr;
      sum += P * (X[k + 1] + sl * j) - Q / w * sl;
    }
  (void)d;
  return sum;
}

/// returns false if a rounding could change the discrete choices
template <class T>
static bool
convolution (const Vec &wav, double r, const T &tau, Conv &o)
{
  const long n = wav.size ();
  o.opt.assign (n, 0), o.atm.assign (n, 0), o.cat.assign (n, 0);
  const L h = ((L)wav[0] + wav[n - 1]) / 2 / (2000.0L * r), d = ((L)wav[n - 1] - wav[0]) / (n - 1);
  const L q = d / h;
  if (std::fabs (q - std::round (q)) < 1e-9L)
    return false;
  const long s = std::ceil (q);
  const L w = d / s, u = 4 * h / w;
  if (std::fabs (u - std::round (u)) < 1e-9L)
    return false;
  const long M = (long)u;
  VecL x, X, O;
  for (long i = 0; i < n; i++)
    for (long j = 0; j < (i + 1 < n ? s : 1); j++)
      {
        const L y = s == 1 || j == 0 ? (L)wav[i] : wav[i] + (L)j / s * ((L)wav[i + 1] - wav[i]);
        x.push_back (y);
        O.push_back (tau (y));
        X.push_back (std::exp (-O.back ()));
      }
  for (long i = 0; i < n; i++)
    {
      o.opt[i] = O[i * s];
      o.atm[i] = X[i * s];
      o.cat[i] = conv_at (X, i * s, d, w, h, M);
    }
  o.s = s;
  return true;
}

/// Legendre polynomials on the wavelength interval
static VecL
legendre_basis (L x, int m)
{
  VecL p (m + 1, 1);
  if (m > 0)
    p[1] = x;
  for (int k = 2; k < m; k++)
    p[k] = ((2 * k - 1) * x * p[k - 1] - (k - 1) * p[k - 2]) / k;
  return p;
}

/// weighted least squares by QR (modified Gram-Schmidt, twice); returns false if the problem is badly conditioned
template <class C>
static bool
continuum_ref (const Vec &wav, const Vec &flx, const Vec &unc, const std::vector<bool> &msk, int m, const C &cat, VecL &out)
{
  const int n = wav.size ();
  out.assign (n, 1);
  if (m == 0)
    return true;
  std::vector<VecL> B (m, VecL (n)), Q;
  std::vector<VecL> R (m, VecL (m + 1, 0));
  VecL y (n, 0);
  for (int i = 0; i < n; i++)
    {
      const L x = (2 * ((L)wav[i] - wav[0])) / ((L)wav[n - 1] - wav[0]) - 1;
      const VecL p = legendre_basis (x, m);
      for (int k = 0; k < m; k++)
        B[k][i] = p[k];
      y[i] = msk[i] ? flx[i] / (L)unc[i] : 0;
    }
  L big = 0, small = 1e300L;
  for (int k = 0; k < m; k++)
    {
      VecL v (n);
      for (int i = 0; i < n; i++)
        v[i] = msk[i] ? B[k][i] * cat[i] / unc[i] : 0;
      for (int pass = 0; pass < 2; pass++)
        for (int j = 0; j < k; j++)
          {
            L s = 0;
            for (int i = 0; i < n; i++)
              s += Q[j][i] * v[i];
            R[j][k] += s;
            for (int i = 0; i < n; i++)
              v[i] -= s * Q[j][i];
          }
      L s = 0;
      for (int i = 0; i < n; i++)
        s += v[i] * v[i];
      s = std::sqrt (s);
      R[k][k] = s;
      big = std::max (big, s), small = std::min (small, s);
      if (!(s > 0))
        return false;
      for (int i = 0; i < n; i++)
        v[i] /= s;
      Q.push_back (v);
    }
  if (!(small > 1e-3L * big))
    return false;
  VecL c (m);
  for (int k = m - 1; k >= 0; k--)
    {
      L s = 0;
      for (int i = 0; i < n; i++)
        s += Q[k][i] * y[i];
      for (int j = k + 1; j < m; j++)
        s -= R[k][j] * c[j];
      c[k] = s / R[k][k];
    }
  for (int i = 0; i < n; i++)
    {
      out[i] = 0;
      for (int k = 0; k < m; k++)
        out[i] += c[k] * B[k][i];
    }
  return true;
}

struct Spectrum
{
  Vec wav, flx, unc;
  std::vector<bool> msk;
  Section sec;
};

static Spectrum *
spectrum (orc::Rng &r, int n, double spread = 1.6)
{
  Spectrum *s = new Spectrum{ Vec (n), Vec (n), Vec (n), std::vector<bool> (n, true), Section () };
  const double a = r.u (100, 9000), d = std::pow (10, r.u (-3, 0));
  double x = a;
  for (int i = 0; i < n; i++)
    {
      s->wav[i] = x;
      x += d * (r.n (0, 3) ? 1 : r.u (0.4, spread));
      s->flx[i] = r.u (0.1, 2);
      s->unc[i] = r.u (0.5, 2) * 0.1;
    }
  s->sec = Section (n, s->wav.data (), s->flx.data (), s->unc.data ());
  return s;
}

static void
hide (Spectrum &s, double a, double b)
{
  s.sec.mask (a, b);
  for (size_t i = 0; i < s.wav.size (); i++)
    if (s.wav[i] >= a && s.wav[i] <= b)
      s.msk[i] = false;
}

static Tau
lines (orc::Rng &r, const Spectrum &s, double R)
{
  Tau t;
  t.base = r.n (0, 1) ? 0 : r.u (0, 1);
  const double a = s.wav[0], b = s.wav.back (), h = (a + b) / 4000 / R;
  for (int i = r.n (0, 3); i > 0; i--)
    {
      t.c.push_back (r.n (0, 3) ? r.u (a, b) : r.n (0, 1) ? a : b);
      t.b.push_back (std::max (h, (b - a) / s.wav.size ()) * r.u (0.5, 5));
      t.a.push_back (r.u (0, 3));
    }
  return t;
}

/// a resolution that gives about the requested ratio of spacing and half width
static double
resolution (orc::Rng &r, const Spectrum &s, double lo = 0.02, double hi = 4)
{
  const double d = (s.wav.back () - s.wav[0]) / (s.wav.size () - 1), q = std::exp (r.u (std::log (lo), std::log (hi)));
  return (s.wav[0] + s.wav.back ()) / 4000 * q / d;
}

/// columns of a section by its public output (13 columns)
static std::vector<Vec>
columns (const Section &s)
{
  std::ostringstream o;
  s.put (o);
  std::istringstream is (o.str ());
  std::vector<Vec> rows;
  std::string line;
  while (std::getline (is, line))
    {
      std::istringstream ls (line);
      Vec v;
      double x;
      while (ls >> x)
        v.push_back (x);
      if (v.size ())
        rows.push_back (v);
    }
  return rows;
}
