// C07: uncertainties are the covariance diagonal rescaled by the curvature along the principal axes
#include "es_ref.h"
using namespace especia;

struct Fun
{
  natural n;
  int kind; // 0 quadratic along the axes, 1 quadratic with a general matrix, 2 quartic terms, 3 non-smooth
  std::vector<double> x, H;
  double offset;
  bool negative;
  mutable std::mutex *m;
  mutable std::vector<std::vector<double> > *log;
  double
  value (const double *p) const
  {
    double y = 0;
    for (natural i = 0; i < n; i++)
      {
        for (natural j = 0; j < n; j++)
          y += 0.5 * (p[i] - x[i]) * H[i + j * n] * (p[j] - x[j]);
        const double t = p[i] - x[i];
        if (kind == 2)
          y += 0.3 * t * t * t * t + 0.1 * t * t * t;
        if (kind == 3)
          y += std::fabs (t);
      }
    return offset + (negative ? -y : y);
  }
  real
  operator() (const real p[], natural k) const
  {
    {
      std::lock_guard<std::mutex> l (*m);
      log->push_back (std::vector<double> (p, p + n));
    }
    return value (p);
  }
};

struct Cost
{
  double a;
  bool is_violated (const real[], natural) const { return false; }
  real cost (const real p[], natural) const { return a * p[0] * p[0]; }
};

static void
estimate (orc::Rng &r)
{
  const natural n = r.n (1, 6);
  std::mutex mutex;
  std::vector<std::vector<double> > log;
  Fun f = { n, int (r.n (0, 3)), std::vector<double> (n), std::vector<double> (n * n), r.n (0, 1) ? 0 : r.u (-50, 50), r.n (0, 3) == 0, &mutex, &log };
  // principal axes: eigenvectors of a random symmetric matrix
  std::vector<double> A (n * n), B (n * n), w (n), d (n), C (n * n);
  for (natural j = 0; j < n; j++)
    for (natural i = 0; i <= j; i++)
      A[i + j * n] = A[j + i * n] = r.u (-1, 1);
  const D_Decompose dec (n);
  dec (&A[0], &B[0], &w[0]);
  for (natural j = 0; j < n; j++)
    d[j] = std::pow (10, r.u (-2, 1));
  for (natural i = 0; i < n; i++)
    for (natural j = 0; j < n; j++)
      for (natural k = 0; k < n; k++)
        {
          C[i + j * n] += B[i + k * n] * d[k] * d[k] * B[j + k * n];
          f.H[i + j * n] += B[i + k * n] * B[j + k * n] * (f.kind == 1 ? 1 : std::pow (d[k], -2) * (1 + k));
        }
  if (f.kind == 1)
    for (natural i = 0; i < n; i++)
      f.H[i + i * n] += 1 + i;
  for (natural j = 0; j < n; j++)
    for (natural i = j + 1; i < n; i++)
      C[i + j * n] = r.u (-9, 9); // not used
  for (natural i = 0; i < n; i++)
    f.x[i] = r.u (-3, 3);
  const Cost c = { r.n (0, 2) || f.negative ? 0 : 0.01 };
  const std::vector<double> x = f.x;
  double last = 0;
  std::vector<double> dd;
  for (int rep = 0; rep < 2; rep++)
    {
      const double s = std::pow (10, r.u (-3, 2));
      orc::begin ("uncertainties of %u parameters, objective %d%s offset %g cost %g, global step size %g (try %d), d[0]=%g", n, f.kind, f.negative ? " negative" : "", f.offset, c.a, s, rep, d[0]);
      std::vector<double> z (n, -1.0);
      log.clear ();
      postopti (f, c, n, &x[0], &d[0], &B[0], &C[0], s, &z[0]);
      const double h = z[0] / std::sqrt (C[0]);
      for (natural i = 0; i < n; i++)
        if (not(std::fabs (z[i] - h * std::sqrt (C[i + i * n])) <= 1e-9 * z[i]))
          orc::witness ("uncertainty %u is %.17g, but the factor of the first is %.17g and the covariance %.17g", i, z[i], h, C[i + i * n]);
      // curvature at the last pair of points on each axis
      std::vector<double> step (n), g (n);
      for (const auto &p : log)
        {
          natural axis = 0;
          double best = 0;
          for (natural j = 0; j < n; j++)
            {
              double t = 0;
              for (natural i = 0; i < n; i++)
                t += B[i + j * n] * (p[i] - x[i]);
              if (std::fabs (t) > std::fabs (best))
                best = t, axis = j;
            }
          if (best != 0)
            step[axis] = std::fabs (best) / d[axis];
        }
      double sum = 0;
      bool rough = false;
      for (natural j = 0; j < n; j++)
        {
          if (not(step[j] > 0))
            orc::witness ("no point is evaluated along axis %u", j);
          std::vector<double> p (x), q (x);
          for (natural i = 0; i < n; i++)
            {
              p[i] += step[j] * B[i + j * n] * d[j];
              q[i] -= step[j] * B[i + j * n] * d[j];
            }
          const double v0 = f.value (&x[0]) + c.cost (&x[0], n), v1 = f.value (&p[0]) + c.cost (&p[0], n), v2 = f.value (&q[0]) + c.cost (&q[0], n);
          const double k = std::fabs (v1 + v2 - 2 * v0);
          rough = rough or k < 1e-3 * (std::fabs (v0) + 1e-3);
          sum += std::log (step[j] / std::sqrt (k));
        }
      const double e = std::exp (sum / n);
      if (not rough and not(std::fabs (h - e) <= 1e-6 * e))
        orc::witness ("the common factor is %.17g, geometric mean of the steps is %.17g", h, e);
      if (rep and not rough and f.kind < 2 and not(std::fabs (h - last) <= 1e-6 * h))
        orc::witness ("quadratic objective: the common factor is %.17g, with another global step size it is %.17g", h, last);
      last = rough ? h : h;
      if (rough)
        return;
    }
}

void
check (orc::Rng &r)
{
  do
    estimate (r);
  while (orc::more ());
}
