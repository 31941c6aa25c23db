// C03: every sampled point and every result satisfies the constraint
#include "es_ref.h"
#include "model.h"
#include "profiles.h"
#include "core/section.cxx"
#include "core/readline.cxx"
#include "core/profiles.cxx"
using namespace especia;
typedef Model<Intergalactic_Doppler>::Bounded_Constraint<> Box;

static void
box (orc::Rng &r)
{
  const natural n = r.n (1, 8);
  std::vector<double> a (n), b (n), x (n);
  bool in = true;
  for (natural i = 0; i < n; i++)
    {
      a[i] = r.u (-5, 5), b[i] = r.n (0, 5) ? a[i] + r.u (0, 4) : a[i];
      const unsigned k = r.n (0, 14);
      x[i] = k == 0 ? a[i] : k == 1 ? b[i] : k == 2 ? a[i] - r.u (0.001, 1) : k == 3 ? b[i] + r.u (0.001, 1) : k == 4 ? std::nextafter (a[i], -99) : k == 5 ? std::nextafter (b[i], 99) : r.u (a[i], b[i]);
      in = in and x[i] >= a[i] and x[i] <= b[i];
    }
  orc::begin ("box constraint in %u dimensions, x[0]=%.17g in [%.17g, %.17g]", n, x[0], a[0], b[0]);
  const Box c (&a[0], &b[0], n);
  if (c.is_violated (&x[0], n) == in)
    orc::witness ("a point %s the box is reported as %s", in ? "in" : "outside", in ? "violating" : "valid");
}

struct Quadratic
{
  std::vector<double> a;
  const Box *c;
  std::mutex *m;
  std::vector<std::vector<double> > *bad;
  real
  operator() (const real x[], natural n) const
  {
    double y = 0;
    for (natural i = 0; i < n; i++)
      y += (1 + i) * (x[i] - a[i]) * (x[i] - a[i]);
    return y;
  }
};

static void
result (orc::Rng &r)
{
  const natural n = r.n (1, 4);
  std::vector<double> a (n), b (n);
  std::valarray<real> x (n), d (n);
  Quadratic f;
  f.a.resize (n);
  for (natural i = 0; i < n; i++)
    {
      a[i] = r.u (-5, 5), b[i] = a[i] + r.u (0.1, 4);
      x[i] = 0.5 * (a[i] + b[i]), d[i] = 0.5 * (b[i] - a[i]);
      f.a[i] = r.u (a[i] - 2, b[i] + 2);
    }
  const natural mu = r.n (1, 6);
  const natural stop = r.n (0, 40);
  const double s = r.u (0.2, 1.5);
  const uint64_t seed = r.next ();
  orc::begin ("fit of %u parameters, parents=%u stop=%u step=%g seed=%llu, box of component 0 [%.17g, %.17g]", n, mu, stop, s, (unsigned long long) seed, a[0], b[0]);
  const Box c (&a[0], &b[0], n);
  Optimizer::Builder builder;
  const Optimizer opt = builder.with_problem_dimension (n).with_parent_number (mu).with_population_size (2 * mu + r.n (1, 4)).with_stop_generation (stop).with_accuracy_goal (1e-3).with_random_seed (seed).build ();
  const Optimizer::Result z = opt.minimize (f, x, d, s, c, No_Tracing<real> ());
  for (natural i = 0; i < n; i++)
    {
      const double t = z.get_parameter_values ()[i];
      if (not(t >= a[i] - 1e-12 * std::fabs (a[i]) and t <= b[i] + 1e-12 * std::fabs (b[i])))
        orc::witness ("component %u of the result is %.17g, bounds are %.17g and %.17g", i, t, a[i], b[i]);
    }
}

void
check (orc::Rng &r)
{
  do
    switch (r.n (0, 9))
      {
      case 0:
        box (r);
        break;
      case 1:
        result (r);
        break;
      default:
        es::search (r, es::CONSTRAINT);
      }
  while (orc::more ());
}
