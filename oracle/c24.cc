// C24: parallel evaluation gives the result of a sequential one, errors reach the caller after all workers ended
#include "oracle.h"
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include "optimizer.h"
#include "core/optimizer.cxx"
#include "core/decompose.cxx"
using namespace especia;

struct Failure
{
  double where;
};

struct Shared
{
  std::mutex m;
  std::set<double> failed;
  unsigned long calls = 0;
  int active = 0, most = 0;
};

struct Objective
{
  Shared *s;
  int kind;
  std::vector<double> a;
  double sign;
  unsigned long from, to, delay; // calls that fail, greatest delay in microseconds
  double limit;                  // points beyond fail
  static uint64_t
  mix (uint64_t z)
  {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  real
  operator() (const real x[], natural n) const
  {
    unsigned long c;
    {
      std::lock_guard<std::mutex> l (s->m);
      c = s->calls++;
      s->most = std::max (s->most, ++s->active);
    }
    double y = 0;
    for (natural i = 0; i < n; i++)
      y += (1 + i) * (x[i] - a[i]) * (x[i] - a[i]) + (kind ? 0.1 * std::fabs (x[i]) : 0);
    if (delay)
      {
        const unsigned long d = mix (c * 0x9e3779b97f4a7c15ULL + 1) % (2 * delay);
        if (d < delay)
          std::this_thread::sleep_for (std::chrono::microseconds (d));
      }
    std::lock_guard<std::mutex> l (s->m);
    s->active--;
    if ((c >= from and c < to) or x[0] > limit)
      {
        s->failed.insert (y);
        throw Failure { y };
      }
    return sign * y;
  }
};

struct Run
{
  bool failed = false, foreign = false;
  double where = 0;
  int active = 0;
  std::vector<double> out;
};

static Run
search (Optimizer::Builder &builder, Objective f, Shared &s, const std::valarray<real> &x, const std::valarray<real> &d)
{
  Run z;
  f.s = &s;
  const Optimizer opt = builder.build ();
  try
    {
      const Optimizer::Result r = f.sign > 0 ? opt.minimize (f, x, d, 1.0) : opt.maximize (f, x, d, 1.0);
      z.active = s.active;
      for (real p : r.get_parameter_values ())
        z.out.push_back (p);
      for (real p : r.get_parameter_uncertainties ())
        z.out.push_back (p);
      for (real p : r.get_covariance_matrix ())
        z.out.push_back (p);
      z.out.push_back (r.get_fitness ());
      z.out.push_back (r.get_global_step_size ());
      z.out.push_back (r.get_generation_number ());
    }
  catch (const Failure &e)
    {
      z.active = s.active;
      z.failed = true;
      z.where = e.where;
    }
  catch (...)
    {
      z.active = s.active;
      z.failed = z.foreign = true;
    }
  return z;
}

void
check (orc::Rng &r)
{
  do
    {
      const natural n = r.n (1, 4), mu = r.n (2, 10);
      std::valarray<real> x (n), d (n);
      Objective f;
      f.kind = r.n (0, 1);
      f.sign = r.n (0, 1) ? 1 : -1;
      f.a.resize (n);
      for (natural i = 0; i < n; i++)
        f.a[i] = r.u (-2, 2), x[i] = r.u (-2, 2), d[i] = r.u (0.1, 2);
      const natural lambda = r.n (0, 1) ? 2 * mu : r.n (2 * mu, 3 * mu), stop = r.n (1, 60);
      const double goal = std::pow (10, r.u (-3, 0.5));
      const uint64_t seed = r.next ();
      Optimizer::Builder builder;
      builder.with_problem_dimension (n).with_parent_number (mu).with_population_size (lambda).with_stop_generation (stop).with_accuracy_goal (goal).with_random_seed (seed);
      f.from = f.to = f.delay = 0;
      f.limit = HUGE_VAL;
      orc::begin ("%s of %u parameters, parents=%u population=%u stop=%u goal=%g seed=%llu, no failing evaluation", f.sign > 0 ? "minimum" : "maximum", n, mu, lambda, stop, goal, (unsigned long long) seed);
      Shared s1, s2, s3;
      const Run a = search (builder, f, s1, x, d);
      if (a.failed)
        orc::witness ("an error is reported, but no evaluation failed");
      f.delay = r.n (1, 200);
      const Run b = search (builder, f, s2, x, d);
      if (b.failed or s1.calls != s2.calls)
        orc::witness ("%lu evaluations when they take different times, %lu otherwise", s2.calls, s1.calls);
      for (size_t i = 0; i < a.out.size (); i++)
        if (std::memcmp (&a.out[i], &b.out[i], sizeof (double)) != 0)
          orc::witness ("number %zu of the result is %.17g when the evaluations take different times, %.17g otherwise", i, b.out[i], a.out[i]);
      // some evaluations fail: any call, or the last ones (those of the uncertainty estimate)
      const bool last = r.n (0, 1);
      f.from = last ? s1.calls - 1 - r.n (0, std::min<unsigned long> (s1.calls - 1, 2 * n + 2)) : r.next () % s1.calls;
      f.to = f.from + (r.n (0, 1) ? 1 : r.n (1, lambda));
      if (r.n (0, 4) == 0)
        f.from = f.to = 0, f.limit = r.u (-1, 2);
      orc::begin ("%s of %u parameters, parents=%u population=%u stop=%u goal=%g seed=%llu, evaluations %lu to %lu of %lu (or x[0]>%g) fail, delays up to %lu us", f.sign > 0 ? "minimum" : "maximum", n, mu, lambda, stop, goal,
                  (unsigned long long) seed, f.from, f.to, s1.calls, f.limit, f.delay);
      const Run c = search (builder, f, s3, x, d);
      if (c.active != 0)
        orc::witness ("%d evaluations are still active when the search has ended", c.active);
      if (c.failed != not s3.failed.empty ())
        orc::witness (c.failed ? "an error is reported, but no evaluation failed" : "%zu evaluations failed, but no error is reported", s3.failed.size ());
      if (c.failed and (c.foreign or not s3.failed.count (c.where)))
        orc::witness ("the error reported is not that of an evaluation");
    }
  while (orc::more ());
}
