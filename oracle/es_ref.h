// Reference for the evolution strategy: replays the search of the real code from the recorded normal deviates,
// eigendecompositions and evaluations, generation by generation.
#ifndef ES_REF_H
#define ES_REF_H
#include "oracle.h"
#include <algorithm>
#include <mutex>
#include "optimizer.h"
#include "core/optimizer.cxx"
#include "core/decompose.cxx"
namespace es
{
using especia::natural;
using especia::real;
typedef std::vector<double> vec;

enum
{
  CONSTRAINT = 1, // sampled points satisfy the constraint
  STATE = 2,      // the result describes the state at the end
  SELECTION = 4,  // ranking and recombination
  ADAPTATION = 8  // sampling and adaptation
};

struct Objective
{
  int kind;
  natural n;
  vec a;
  double sign;
  mutable std::mutex *m;
  mutable std::vector<vec> *log;
  double
  value (const double *x) const
  {
    double y = 0;
    for (natural i = 0; i < n; i++)
      {
        const double t = x[i] - a[i];
        if (kind == 0)
          y += t * t;
        else if (kind == 1)
          y += (1 + 3 * i) * t * t;
        else if (kind == 2)
          y += std::fabs (t) + 0.1 * std::cos (3 * x[i]);
        else if (kind == 4)
          y += t;
      }
    return kind == 3 ? 7.25 : sign * y;
  }
  real
  operator() (const real x[], natural k) const
  {
    {
      std::lock_guard<std::mutex> l (*m);
      log->push_back (vec (x, x + n));
    }
    return k == n ? value (x) : std::nan ("");
  }
};

struct Constraint
{
  int kind; // 0 none, 1 box, 2 box with cost, 3 two balls
  natural n;
  vec lo, hi;
  double sign;
  bool
  is_violated (const real x[], natural k) const
  {
    if (k != n)
      return true;
    if (kind == 0)
      return false;
    if (kind == 3)
      return std::fabs (std::sin (2 * x[0])) < 0.2;
    for (natural i = 0; i < n; i++)
      if (x[i] < lo[i] or x[i] > hi[i])
        return true;
    return false;
  }
  real
  cost (const real x[], natural k) const
  {
    return kind >= 2 ? sign * 0.5 * std::fabs (x[0]) + (k == n ? 0 : 1e9) : 0;
  }
};

struct Deviate
{
  orc::Rng *r;
  unsigned long *draws;
  real
  operator() () const
  {
    if (++*draws > 30000) // the constraint is hardly ever satisfied
      throw std::runtime_error ("too many draws");
    return r->normal ();
  }
};

struct Decomposed
{
  vec a, z, w;
};

struct Decompose
{
  natural n;
  std::vector<Decomposed> *log;
  const especia::D_Decompose *d;
  void
  operator() (real A[], real Z[], real w[]) const
  {
    Decomposed t;
    t.a.assign (A, A + n * n);
    (*d) (A, Z, w);
    t.z.assign (Z, Z + n * n);
    t.w.assign (w, w + n);
    log->push_back (t);
  }
};

struct Tracer
{
  natural modulus;
  std::vector<std::vector<double> > *log;
  bool is_tracing (natural g) const { return modulus and g % modulus == 0; }
  void
  trace (natural g, real y, real a, real b) const
  {
    log->push_back ({ double (g), y, a, b });
  }
};

static double
scale (const vec &a)
{
  double s = 0;
  for (double x : a)
    s = std::max (s, std::fabs (x));
  return s;
}

static bool
near (double a, double b, double s, double rel = 1e-9)
{
  return a == b or std::fabs (a - b) <= rel * s;
}

template <class Compare>
static void
run (orc::Rng &r, unsigned mask, bool maximize)
{
  using especia::sq;
  const natural n = r.n (0, 5) ? r.n (1, 6) : r.n (1, 12), mu = r.n (1, 8), lam = 2 * mu + (r.n (0, 1) ? 0 : r.n (0, 9)) + (mu == 1 ? 1 : 0);
  const natural modulus = r.n (0, 1) ? 1 : r.n (1, 4);
  const natural g0 = r.n (0, 2) ? 0 : r.n (1, 50);
  const natural stop = r.n (0, 12) == 0 ? r.n (0, g0) : g0 + (mask & STATE and r.n (0, 5) == 0 ? r.n (1, 120) : r.n (1, 7));
  const double goal = r.n (0, 2) ? std::pow (10, r.u (-6, -1)) : r.n (0, 1) ? 0 : r.u (0.5, 50);
  vec w (mu);
  for (natural i = 0; i < mu; i++)
    w[i] = r.n (0, 9) ? std::log ((mu + 0.5) / (i + 1)) : r.u (0.1, 1);
  const double cs = r.u (0.05, 0.9), cc = r.u (0.05, 0.9), damp = r.u (1, 3);
  double acov = r.u (0.01, 0.4), ccov = r.u (0, 0.5);
  const unsigned off = r.n (0, 9);
  if (off == 0)
    acov = 0;
  if (off == 1)
    ccov = 0;
  if (off == 2)
    acov = ccov = 0;
  std::mutex mutex;
  std::vector<vec> evals;
  std::vector<std::vector<double> > traces;
  std::vector<Decomposed> decs;
  Objective f = { int (r.n (0, 15) ? r.n (0, 2) : r.n (3, 4)), n, vec (n), maximize ? -1.0 : 1.0, &mutex, &evals };
  Constraint c = { int (r.n (0, 1) ? 0 : r.n (1, 3)), n, vec (n), vec (n), maximize ? -1.0 : 1.0 };
  if (mask == CONSTRAINT and c.kind == 0)
    c.kind = r.n (1, 3);
  // the state of the search
  vec xw (n), d (n), B (n * n), C (n * n), ps (n), pc (n);
  double s = std::pow (10, r.u (-2, 0.5));
  for (natural i = 0; i < n; i++)
    {
      f.a[i] = r.u (-2, 2);
      xw[i] = r.u (-3, 3);
      if (c.kind == 3 and i == 0)
        xw[0] = 0.8 + 1.5707963267948966 * int (r.n (0, 3));
      c.lo[i] = xw[i] - r.u (0.05, 2);
      c.hi[i] = xw[i] + r.u (0.05, 2);
      ps[i] = r.n (0, 1) ? 0 : r.u (-1, 1);
      pc[i] = r.n (0, 1) ? 0 : r.u (-1, 1);
    }
  const bool general = r.n (0, 1);
  const bool degenerate = r.n (0, 7) == 0; // ill conditioned covariance matrix
  {
    vec M (n * n);
    for (natural i = 0; i < n; i++)
      for (natural j = 0; j < n; j++)
        M[i + j * n] = general ? r.u (-1, 1) * (i == 0 and degenerate ? 1e-9 : 1) : i == j ? std::pow (10, degenerate ? r.u (-9, 1) : r.u (-1, 1)) : 0;
    for (natural i = 0; i < n; i++)
      for (natural j = 0; j < n; j++)
        for (natural k = 0; k < n; k++)
          C[i + j * n] += M[i + k * n] * M[j + k * n];
    for (natural i = 0; i < n; i++)
      {
        if (not general)
          {
            B[i + i * n] = 1;
            d[i] = M[i + i * n];
          }
      }
    if (general)
      {
        especia::D_Decompose dec (n);
        vec A = C;
        dec (&A[0], &B[0], &d[0]);
        for (natural i = 0; i < n; i++)
          d[i] = std::sqrt (std::max (0.0, d[i]));
      }
    for (natural j = 0; j < n; j++) // the lower part is not used
      for (natural i = j + 1; i < n; i++)
        C[i + j * n] = r.u (-9, 9);
  }
  const uint64_t seed = r.next ();
  orc::begin ("n=%u parents=%u population=%u modulus=%u goal=%g generation=%u stop=%u objective=%d constraint=%d %s acov=%g ccov=%g cs=%g cc=%g damping=%g step=%g seed=%llu%s%s", n, mu,
              lam, modulus, goal, g0, stop, f.kind, c.kind, maximize ? "max" : "min", acov, ccov, cs, cc, damp, s, (unsigned long long) seed, general ? " rotated" : "",
              degenerate ? " ill-conditioned" : "");
  orc::Rng gen (seed);
  unsigned long count = 0;
  const Deviate dev = { &gen, &count };
  const especia::D_Decompose lib (n);
  const Decompose dec = { n, &decs, &lib };
  const Tracer tr = { natural (r.n (0, 1) ? 0 : r.n (1, 4)), &traces };
  natural g = g0;
  double yw = 12345;
  bool optimized = false, underflow = false;
  vec X = xw, D = d, b = B, CC = C, PS = ps, PC = pc;
  double S = s;
  try
    {
      especia::optimize (f, c, n, mu, lam, &w[0], damp, cs, cc, ccov, acov, modulus, goal, stop, g, &X[0], S, &D[0], &b[0], &CC[0], &PS[0], &PC[0], yw, optimized, underflow, dev, dec, Compare (),
                         tr);
    }
  catch (std::runtime_error &e)
    {
      if (count > 30000)
        return;
      throw;
    }

  // ---- what the reported result says about itself
  const double ye = f.value (&X[0]) + c.cost (&X[0], n);
  if (mask & STATE)
    {
      if (not near (yw, ye, std::fabs (ye) + std::fabs (yw), 1e-12))
        orc::witness ("reported fitness %.17g, but the value at the reported point is %.17g", yw, ye);
      if (g > std::max (stop, g0))
        orc::witness ("generation %u reported, stop generation is %u", g, stop);
      if (not optimized and not underflow and g < stop)
        orc::witness ("neither optimized nor underflow, but only %u of %u generations are used", g, stop);
    }
  if (mask & CONSTRAINT and (c.kind == 1 or c.kind == 2))
    for (natural i = 0; i < n; i++)
      if (not(X[i] >= c.lo[i] - 1e-12 * std::fabs (c.lo[i]) and X[i] <= c.hi[i] + 1e-12 * std::fabs (c.hi[i])))
        orc::witness ("result component %u is %.17g, but its bounds are %.17g and %.17g", i, X[i], c.lo[i], c.hi[i]);

  if (mask & CONSTRAINT and c.kind)
    {
      unsigned bad = 0; // the centre is evaluated when traced and in the end
      for (const vec &e : evals)
        {
          bool in = true;
          for (natural i = 0; i < n; i++)
            in = in and e[i] >= c.lo[i] - 1e-12 * std::fabs (c.lo[i]) and e[i] <= c.hi[i] + 1e-12 * std::fabs (c.hi[i]);
          if (c.kind < 3 and not in)
            orc::witness ("a point outside the box is evaluated, x[0] = %.17g in [%g, %g]", e[0], c.lo[0], c.hi[0]);
          if (c.kind == 3 and c.is_violated (&e[0], n) and ++bad > traces.size () + 1)
            orc::witness ("%u points that violate the constraint are evaluated, x[0] = %.17g", bad, e[0]);
        }
      if (mask == CONSTRAINT)
        return;
    }
  // ---- replay
  orc::Rng gen2 (seed);
  std::vector<vec> left = evals;
  size_t ndec = 0, ntr = 0;
  natural G = g0;
  double ws = 0, w2 = 0;
  for (double t : w)
    ws += t, w2 += t * t;
  const double cw = ws / std::sqrt (w2), csu = std::sqrt (cs * (2 - cs)), ccu = std::sqrt (cc * (2 - cc));
  const double en = (n - 0.25 + 1.0 / (21.0 * n)) / std::sqrt (double (n)), maxc = 0.01 / DBL_EPSILON;
  bool opt = false, under = false;
  const unsigned long budget = 200000;
  unsigned long draws = 0;
  while (G < stop and not opt and not under and draws < budget)
    {
      std::vector<vec> u (lam, vec (n)), v = u, x = u;
      vec y (lam);
      for (natural k = 0; k < lam; k++)
        for (natural j = 0; j < n; j++)
          {
            vec nu, nv;
            do
              {
                const double z = gen2.normal ();
                draws++;
                nu = u[k], nv = v[k];
                for (natural i = 0; i < n; i++)
                  {
                    nu[i] += z * (B[i + j * n] * d[j]);
                    nv[i] += z * B[i + j * n];
                    x[k][i] = xw[i] + nu[i] * s;
                  }
              }
            while (c.is_violated (&x[k][0], n) and draws < budget);
            u[k] = nu, v[k] = nv;
          }
      if (draws >= budget)
        return;
      G++;
      // every individual was evaluated
      for (natural k = 0; k < lam; k++)
        {
          size_t best = size_t (-1);
          double e = 0;
          for (size_t t = 0; t < left.size (); t++)
            {
              double m = 0;
              for (natural i = 0; i < n; i++)
                m = std::max (m, std::fabs (left[t][i] - x[k][i]) / (scale (x[k]) + std::fabs (left[t][i]) + 1e-300));
              if (best == size_t (-1) or m < e)
                best = t, e = m;
            }
          if (best == size_t (-1) or not (e <= 1e-9))
            {
              if (mask & (ADAPTATION | SELECTION | STATE))
                {
                  if (mask & ADAPTATION and best != size_t (-1))
                    orc::witness ("generation %u: individual %u should be at x[0] = %.17g, nearest evaluated point has %.17g", G, k, x[k][0], left[best][0]);
                  if (mask & (SELECTION | STATE) and left.size () < lam - k)
                    orc::witness ("generation %u: individual %u was not evaluated", G, k);
                }
              return;
            }
          left.erase (left.begin () + best);
          y[k] = f.value (&x[k][0]) + c.cost (&x[k][0], n);
        }
      std::vector<natural> I (lam);
      for (natural k = 0; k < lam; k++)
        I[k] = k;
      const Compare cmp = Compare ();
      std::stable_sort (I.begin (), I.end (), [&] (natural p, natural q) { return cmp (y[p], y[q]); });
      // near ties are decided by rounding
      const double gap = 1e-11 * (scale (y) + 1e-300);
      bool tie = false, equal = true;
      for (natural k = 1; k < lam; k++)
        {
          tie = tie or std::fabs (y[I[k]] - y[I[k - 1]]) <= gap;
          equal = equal and y[k] == y[0];
        }
      if (equal)
        {
          under = true;
          break;
        }
      if (tie)
        return;
      if (y[I[0]] == y[I[mu]])
        {
          under = true;
          break;
        }
      vec uw (n), vw (n), nx (n);
      for (natural i = 0; i < n; i++)
        {
          for (natural k = 0; k < mu; k++)
            {
              uw[i] += w[k] * u[I[k]][i];
              vw[i] += w[k] * v[I[k]][i];
              nx[i] += w[k] * x[I[k]][i];
            }
          uw[i] /= ws, vw[i] /= ws, nx[i] /= ws;
        }
      const vec ox = xw;
      xw = nx;
      double smin = 0;
      if (acov > 0 or ccov > 0)
        {
          for (natural i = 0; i < n; i++)
            pc[i] = (1 - cc) * pc[i] + ccu * cw * uw[i];
          for (natural j = 0; j < n; j++)
            for (natural i = 0; i <= j; i++)
              {
                double z = 0;
                for (natural k = 0; k < mu; k++)
                  z += w[k] * u[I[k]][i] * u[I[k]][j];
                double &t = C[i + j * n];
                t = t + acov * (pc[i] * pc[j] - t) + ccov * (z / ws - t);
              }
          if (G % modulus == 0)
            {
              if (ndec >= decs.size ())
                {
                  if (mask & ADAPTATION)
                    orc::witness ("generation %u: the eigendecomposition is not refreshed", G);
                  return;
                }
              const Decomposed &t = decs[ndec++];
              double m = 0;
              for (natural i = 0; i < n; i++)
                m = std::max (m, std::fabs (C[i + i * n]));
              for (natural j = 0; j < n; j++)
                for (natural i = 0; i <= j; i++)
                  if (not near (t.a[i + j * n], C[i + j * n], m, 1e-8))
                    {
                      if (mask & ADAPTATION)
                        orc::witness ("generation %u: decomposed covariance matrix element (%u,%u) is %.17g, expected %.17g", G, i, j, t.a[i + j * n], C[i + j * n]);
                      return;
                    }
              B = t.z;
              smin = std::max (0.0, t.w[n - 1] / maxc - t.w[0]);
              for (natural i = 0; i < n; i++)
                {
                  C[i + i * n] += smin;
                  d[i] = std::sqrt (t.w[i] + smin);
                }
            }
        }
      double l = 0;
      for (natural i = 0; i < n; i++)
        {
          ps[i] = (1 - cs) * ps[i] + csu * cw * vw[i];
          l += ps[i] * ps[i];
        }
      s *= std::exp (cs / damp * (std::sqrt (l) / en - 1));
      if (not(s > 1e-100 and s < 1e100 and scale (C) < 1e100))
        return;
      opt = true;
      bool edge = false;
      for (natural i = 0; i < n; i++)
        {
          const double p = s * s * C[i + i * n], q = sq (goal * xw[i]) + 1 / maxc;
          opt = opt and p < q;
          edge = edge or std::fabs (p - q) <= 1e-6 * q;
        }
      if (opt or tr.is_tracing (G))
        {
          const double e = f.value (&xw[0]) + c.cost (&xw[0], n);
          if (ntr >= traces.size ())
            {
              if (mask & STATE and not edge)
                orc::witness ("generation %u: not traced", G);
              return;
            }
          const std::vector<double> &t = traces[ntr++];
          if (mask & STATE and (t[0] != G or not near (t[1], e, scale (y) + std::fabs (e), 1e-7)))
            orc::witness ("generation %u: traced generation %g and fitness %.17g, expected %.17g", G, t[0], t[1], e);
        }
      if (edge)
        return;
    }
  const double sx = scale (X) + scale (xw) + 1e-300;
  if (mask & STATE)
    {
      if (g != G)
        orc::witness ("generation %u reported, %u populations were sampled", g, G);
      if (optimized != opt or underflow != under)
        orc::witness ("reported optimized %d underflow %d, expected %d %d", int (optimized), int (underflow), int (opt), int (under));
    }
  if (g != G or optimized != opt or underflow != under)
    {
      if (mask & ADAPTATION and g != g0)
        orc::witness ("search ended after generation %u (optimized %d underflow %d), expected %u (%d %d)", g, int (optimized), int (underflow), G, int (opt), int (under));
      return;
    }
  if (mask & (SELECTION | ADAPTATION))
    for (natural i = 0; i < n; i++)
      if (not near (X[i], xw[i], sx, 1e-7))
        orc::witness ("after generation %u the centre has component %u = %.17g, expected %.17g", g, i, X[i], xw[i]);
  if (mask & ADAPTATION)
    {
      double mc = 0;
      for (natural i = 0; i < n; i++)
        mc = std::max (mc, std::fabs (C[i + i * n]));
      for (natural i = 0; i < n; i++)
        {
          if (not near (PS[i], ps[i], scale (ps) + 1e-300, 1e-7))
            orc::witness ("after generation %u the step size path has component %u = %.17g, expected %.17g", g, i, PS[i], ps[i]);
          if (not near (PC[i], pc[i], scale (pc) + 1e-300, 1e-7))
            orc::witness ("after generation %u the covariance path has component %u = %.17g, expected %.17g", g, i, PC[i], pc[i]);
          if (not near (D[i], d[i], scale (d), 1e-7))
            orc::witness ("after generation %u local step %u is %.17g, expected %.17g", g, i, D[i], d[i]);
        }
      for (natural j = 0; j < n; j++)
        for (natural i = 0; i < n; i++)
          {
            if (i <= j and not near (CC[i + j * n], C[i + j * n], mc, 1e-7))
              orc::witness ("after generation %u covariance (%u,%u) is %.17g, expected %.17g", g, i, j, CC[i + j * n], C[i + j * n]);
            if (not near (b[i + j * n], B[i + j * n], 1, 1e-7))
              orc::witness ("after generation %u axis %u component %u is %.17g, expected %.17g", g, j, i, b[i + j * n], B[i + j * n]);
          }
      if (not near (S, s, s, 1e-7))
        orc::witness ("after generation %u the global step size is %.17g, expected %.17g", g, S, s);
    }
}

static void
search (orc::Rng &r, unsigned mask)
{
  if (r.n (0, 2))
    run<std::less<real> > (r, mask, false);
  else
    run<std::greater<real> > (r, mask, true);
}
} // namespace es
#endif // ES_REF_H
