// C15: symmetry, positivity, monotonicity and area of the profile functions
#include "oracle.h"
#include "profiles.h"
#include "core/profiles.cxx"
using namespace especia;

template <class A>
static void
approx (const char *name, orc::Rng &r, bool monotonic)
{
  const double s = std::pow (10.0, r.u (-3, 3));
  const double b = r.n (0, 4) ? s * std::pow (10.0, r.u (-4, 4)) : s, d = s;
  A f (b, d);
  orc::begin ("%s b=%.17g d=%.17g", name, b, d);
  const double w = b + d;
  double last = INFINITY, at = 0;
  std::vector<double> xs;
  for (int i = 0; i < 400; i++)
    xs.push_back (w * (i < 200 ? 0.05 * i : 10 * std::pow (1.06, i - 199)));
  for (double x : xs)
    {
      const double p = f (x), m = f (-x);
      if (!(std::fabs (p - m) <= 1e-13 * std::fabs (p)))
        orc::witness ("not symmetric: %.17g at %.17g but %.17g at %.17g", p, x, m, -x);
      if (!(p > 0) || std::isinf (p))
        orc::witness ("not positive: %.17g at %.17g", p, x);
      if (monotonic && p > last * (1 + 1e-13))
        orc::witness ("increases from %.17g at %.17g to %.17g at %.17g", last, at, p, x);
      last = p, at = x;
    }
  // area: substitution x = w sinh(t)
  double area = 0;
  const double h = 0.004;
  for (double t = -40; t <= 40; t += h)
    area += f (std::min (b, d) / 4 * std::sinh (t)) * std::cosh (t) * std::min (b, d) / 4 * h;
  if (!(std::fabs (area - 1) < 2e-6))
    orc::witness ("the area is %.9g", area);
}

template <class P>
static void
doppler (const char *name, unsigned n, orc::Rng &r)
{
  double q[8];
  q[0] = r.u (900, 9000), q[1] = r.u (0.001, 1), q[2] = r.u (-0.2, 5), q[3] = r.u (-600, 600), q[4] = std::pow (10.0, r.u (-1, 2)), q[5] = r.u (9, 21);
  q[6] = r.u (-3000, 3000), q[7] = r.u (-100, 100);
  P p (q);
  std::string t;
  for (unsigned i = 0; i < n; i++)
    t += std::to_string (q[i]) + " ";
  orc::begin ("%s parameters %s", name, t.c_str ());
  const double c = p.center (), b = q[4] * c / 299792.458;
  for (int i = 0; i < 60; i++)
    {
      const double x = i < 2 ? 4 * b * (i ? 1.001 : 0.999) : b * r.u (0, 6);
      const double u = p (c + x), v = p (c - x);
      if (!(u >= 0) || !(v >= 0))
        orc::witness ("negative optical depth %.17g", std::min (u, v));
      if (!(std::fabs (u - v) <= 1e-6 * (u + v) + 1e-300) && std::fabs (x - 4 * b) > 1e-6 * b)
        orc::witness ("not symmetric about the centre at distance %.17g: %.17g %.17g", x, u, v);
      if (x >= 4 * b * 1.0001 && (u != 0 || v != 0))
        orc::witness ("optical depth %.17g at %.6g widths", u, x / b);
      if (x <= 4 * b * 0.9999 && (!(u > 0) || !(v > 0)))
        orc::witness ("no optical depth at %.6g widths", x / b);
    }
}

void
check (orc::Rng &r)
{
  do
    {
      approx<Pseudo_Voigt> ("Pseudo_Voigt", r, true);
      approx<Extended_Pseudo_Voigt> ("Extended_Pseudo_Voigt", r, false);
      for (int i = 0; i < 20; i++)
        {
          doppler<Many_Multiplet> ("Many_Multiplet", 8, r);
          doppler<Intergalactic_Doppler> ("Intergalactic_Doppler", 6, r);
        }
    }
  while (orc::more ());
}
