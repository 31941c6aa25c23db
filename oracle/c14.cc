// C14: profile values against the published formulas, superposition = sum
#include "oracle.h"
#include "profiles.h"
#include "core/profiles.cxx"
using namespace especia;
typedef long double L;
static const L PI_ = 3.14159265358979323846264338327950288L, LN2 = 0.693147180559945309417232121458176568L;
static const L C = 299792458.0L, E0 = 8.854187817E-12L, ME = 9.10938356E-31L, QE = 1.6021766208E-19L;
static const L K0 = 1e-3L * C, K1 = 1e-6L * QE * QE / (4 * E0 * ME * C * C), K2 = 1e-10L / (4 * PI_ * C);
static L fg (L x, L g) { return expl (-(x / g) * (x / g)) / (sqrtl (PI_) * g); }
static L fl (L x, L g) { return 1 / (PI_ * g * (1 + (x / g) * (x / g))); }
static L fi (L x, L g) { return 1 / (2 * g * powl (1 + (x / g) * (x / g), 1.5L)); }
static L fp (L x, L g) { return 1 / (2 * g * coshl (x / g) * coshl (x / g)); }
static L P (L x, std::initializer_list<double> c) { L r = 0, p = 1; for (double k : c) r += k * p, p *= x; return r; }
static L
pv (L x, L b, L d)
{
  L r = sqrtl (LN2) * b / d;
  L h = 1 / powl (1 + 0.07842L * r + 4.47163L * r * r + 2.42843L * r * r * r + 2.69296L * r * r * r * r + r * r * r * r * r, 0.2L);
  L eta = 1.36603L * h - 0.47719L * h * h + 0.11116L * h * h * h;
  L gl = d / h;
  return (1 - eta) * fg (x, gl / sqrtl (LN2)) + eta * fl (x, gl);
}
static L
epv (L x, L b, L d)
{
  L g = sqrtl (LN2) * b + d, r = d / g;
  L wg = 1 - r * P (r, { 0.66000, 0.15021, -1.24984, 4.74052, -9.48291, 8.48252, -2.95553 });
  L wl = 1 - (1 - r) * P (r, { -0.42179, -1.25693, 10.30003, -23.45651, 29.14158, -16.50453, 3.19974 });
  L wi = P (r, { 1.19913, 1.43021, -15.36331, 47.06071, -73.61822, 57.92559, -17.80614 });
  L wp = P (r, { 1.10186, -0.47745, -0.68688, 2.76622, -4.55466, 4.05475, -1.26571 });
  L el = r * (1 + (1 - r) * P (r, { -0.30165, -1.38927, 9.31550, -24.10743, 34.96491, -21.18862, 3.70290 }));
  L ei = r * (1 - r) * P (r, { 0.25437, -0.14107, 3.23653, -11.09215, 22.10544, -24.12407, 9.76947 });
  L ep = r * (1 - r) * P (r, { 1.01579, 1.50429, -9.21815, 23.59717, -39.71134, 32.83023, -10.02142 });
  L ci = sqrtl (powl (2, 2.0L / 3) - 1), cp = logl (sqrtl (2) + 1);
  return (1 - el - ei - ep) * fg (x, g * wg / sqrtl (LN2)) + el * fl (x, g * wl) + ei * fi (x, g * wi / ci) + ep * fp (x, g * wp / cp);
}
struct Ref { L tau, c, z; };
static Ref
ref (int kind, const double *q, double x)
{
  Ref r;
  r.z = (1 + (L)q[2]) * (1 + q[3] / K0);
  L u = q[0];
  if (kind == 0)
    u = 1e8L / (1e8L / q[0] + (L)q[6] * (q[7] * 1e-6L) * (q[7] * 1e-6L + 2));
  r.c = u * r.z;
  L a = K1 * q[1] * powl (10, q[5]) * (u * r.c), b = q[4] * r.c / K0, y = x - r.c;
  if (kind < 2)
    r.tau = fabsl (y) < 4 * b ? a * fg (y, b) : 0;
  else
    r.tau = a * (kind == 2 ? pv : epv) (y, b, K2 * q[6] * (u * r.c));
  return r;
}
static unsigned np[] = { 8, 6, 7, 7 };
static const char *nm[] = { "Many_Multiplet", "Intergalactic_Doppler", "Intergalactic_Voigt<Pseudo_Voigt>", "Intergalactic_Voigt<Extended_Pseudo_Voigt>" };
static void
fill (orc::Rng &r, int kind, double *q)
{
  q[0] = r.u (900, 9000), q[1] = r.u (0.001, 1), q[2] = r.u (-0.2, 5), q[3] = r.u (-600, 600), q[4] = r.u (0.5, 80), q[5] = r.u (9, 21);
  if (kind == 0)
    q[6] = r.n (0, 4) ? r.u (-3000, 3000) : 0, q[7] = r.n (0, 3) ? r.u (-200, 200) : 0;
  else if (kind > 1)
    q[6] = std::pow (10.0, r.u (4, 11));
}
template <class T>
static void
one (orc::Rng &r, int kind)
{
  double q[8];
  fill (r, kind, q);
  T p (q);
  Ref a = ref (kind, q, 0);
  L b = q[4] * a.c / K0;
  // positions: core, wings, both sides of the truncation point
  double k[] = { 0, r.u (-1, 1), r.u (-4.5, 4.5), 3.999, -3.999, 4.001, -4.001, r.u (-30, 30) };
  orc::begin ("%s q={%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g,%.17g}", nm[kind], q[0], q[1], q[2], q[3], q[4], q[5], kind == 1 ? 0 : q[6], kind == 0 ? q[7] : 0);
  orc::expect (p.center (), a.c, "center()", 1e-13);
  orc::expect (p.redshift_factor (), a.z, "redshift_factor()", 1e-13);
  if (T::parameter_count () != np[kind])
    orc::witness ("parameter_count() = %u", T::parameter_count ());
  for (double t : k)
    {
      double x = a.c + t * b;
      // cancellation in x - c limits the relative precision in the wings
      orc::expect (p (x), ref (kind, q, x).tau, (std::string ("optical depth at x=") + std::to_string (x)).c_str (), 1e-7, 1e-12 * (double)ref (kind, q, a.c).tau);
    }
}
template <class T>
static void
sup (orc::Rng &r, int kind)
{
  unsigned n = r.n (0, 7);
  std::vector<double> q (8 * n + 8);
  double z = r.u (0, 3), x0 = r.u (1000, 6000);
  for (unsigned i = 0; i < n; i++)
    {
      double *p = &q[i * np[kind]];
      fill (r, kind, p);
      p[0] = x0, p[2] = z, p[5] = r.u (11, 15), p[3] = r.u (-50, 50);
    }
  Superposition<T> s (n, q.data ());
  for (int k = 0; k < 4; k++)
    {
      double x = x0 * (1 + z) * (1 + r.u (-3e-4, 3e-4));
      L t = 0;
      for (unsigned i = 0; i < n; i++)
        t += ref (kind, &q[i * np[kind]], x).tau;
      orc::begin ("Superposition<%s> of %u profiles at x=%.17g", nm[kind], n, x);
      orc::expect (s (x), t, "optical depth", 1e-6, 1e-9);
    }
}
void
check (orc::Rng &r)
{
  do
    {
      one<Many_Multiplet> (r, 0), one<Intergalactic_Doppler> (r, 1);
      one<Intergalactic_Voigt<Pseudo_Voigt> > (r, 2), one<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (r, 3);
      sup<Many_Multiplet> (r, 0), sup<Intergalactic_Doppler> (r, 1);
      sup<Intergalactic_Voigt<Pseudo_Voigt> > (r, 2), sup<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (r, 3);
      double b = std::pow (10.0, r.u (-3, 2)), d = std::pow (10.0, r.u (-5, 2)), x = r.u (-5, 5) * (b + d);
      orc::begin ("b=%.17g d=%.17g x=%.17g", b, d, x);
      orc::expect (Pseudo_Voigt (b, d) (x), pv (x, b, d), "pseudo-Voigt", 1e-9, 1e-14);
      orc::expect (Extended_Pseudo_Voigt (b, d) (x), epv (x, b, d), "extended pseudo-Voigt", 1e-9, 1e-14);
    }
  while (orc::more ());
}
