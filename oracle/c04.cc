// C04: the reported result describes the state the search ended in
#include "es_ref.h"
using namespace especia;

struct Parabola
{
  std::vector<double> a;
  double sign;
  real
  operator() (const real x[], natural n) const
  {
    double y = 0;
    for (natural i = 0; i < n; i++)
      y += (1 + i) * (x[i] - a[i]) * (x[i] - a[i]);
    return a.size () == n ? sign * y : 0;
  }
};

static void
result (orc::Rng &r)
{
  const natural n = r.n (1, 4);
  std::valarray<real> x (n), d (n);
  Parabola f;
  f.sign = r.n (0, 1) ? 1 : -1;
  f.a.resize (n);
  for (natural i = 0; i < n; i++)
    f.a[i] = r.u (-2, 2), x[i] = r.u (-2, 2), d[i] = r.u (0.1, 2);
  const bool flat = r.n (0, 9) == 0;
  if (flat)
    f.a.push_back (0);
  const natural mu = r.n (2, 8), stop = r.n (0, 3) ? r.n (0, 40) : 150;
  const double goal = std::pow (10, r.u (-4, 0.5));
  const uint64_t seed = r.next ();
  orc::begin ("%s of %u parameters, parents=%u stop=%u goal=%g seed=%llu%s", f.sign > 0 ? "minimum" : "maximum", n, mu, stop, goal, (unsigned long long) seed, flat ? " constant objective" : "");
  Optimizer::Builder builder;
  const Optimizer opt = builder.with_problem_dimension (n).with_parent_number (mu).with_population_size (2 * mu).with_stop_generation (stop).with_accuracy_goal (goal).with_random_seed (seed).build ();
  const Optimizer::Result z = f.sign > 0 ? opt.minimize (f, x, d, 1.0) : opt.maximize (f, x, d, 1.0);
  const std::valarray<real> &p = z.get_parameter_values (), &u = z.get_parameter_uncertainties ();
  const double y = f (&p[0], n);
  if (not(std::fabs (z.get_fitness () - y) <= 1e-12 * std::fabs (y)))
    orc::witness ("reported fitness %.17g, value at the reported parameters %.17g", z.get_fitness (), y);
  if (z.get_generation_number () > stop)
    orc::witness ("generation %u after stop generation %u", z.get_generation_number (), stop);
  if (not z.is_optimized () and not z.is_underflow () and z.get_generation_number () < stop)
    orc::witness ("neither optimized nor underflow in generation %u of %u", z.get_generation_number (), stop);
  if (flat and stop > 0 and not z.is_underflow ())
    orc::witness ("underflow of the mutation variance is not reported");
  for (natural i = 0; i < n; i++)
    if (z.is_optimized () ? not(u[i] > 0) : u[i] != 0)
      orc::witness ("uncertainty of component %u is %g, optimized %d", i, u[i], int (z.is_optimized ()));
}

void
check (orc::Rng &r)
{
  do
    if (r.n (0, 9) == 0)
      result (r);
    else
      es::search (r, es::STATE);
  while (orc::more ());
}
