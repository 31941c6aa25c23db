// C17: dispersion equations, Newton inversion, and the three utilities
#include <algorithm>
#include <fstream>
#include <iomanip>
#include "oracle.h"
#include "base.h"
#include "dataio.h"
#include "equations.h"
#include "exitcodes.h"
#include "core/dataio.cxx"
#include "core/equations.cxx"
namespace A {
#define main tool_main
#include "util/airtovac.cxx"
}
namespace V {
#include "util/vactoair.cxx"
}
namespace H {
#include "util/helicorr.cxx"
#undef main
}
typedef long double L;
typedef std::vector<std::string> Args;
struct Eq { const char *name; double off, a1, b1, a2, b2; double (*f) (const double &); void (*g) (const double &, double &, double &); };
static Eq eqs[] = {
  { "birch94", 8.34254E-05, 2.406147E-08, 130.0E-06, 1.5998E-10, 38.9E-06, especia::Equations::birch94, especia::Equations::birch94 },
  { "edlen53", 6.43280E-05, 2.5540E-10, 0.0000410, 2.949810E-08, 0.000146, especia::Equations::edlen53, especia::Equations::edlen53 },
  { "edlen66", 8.34213E-05, 1.5997E-10, 0.0000389, 2.406030E-08, 0.000130, especia::Equations::edlen66, especia::Equations::edlen66 },
};
static int
run (int (*f) (int, char **), Args a, const std::string &in, std::string &out)
{
  std::vector<char *> v;
  for (auto &s : a)
    v.push_back (&s[0]);
  v.push_back (nullptr);
  std::istringstream is (in);
  std::ostringstream os, es;
  auto *b = std::cin.rdbuf (is.rdbuf ());
  auto *c = std::cout.rdbuf (os.rdbuf ());
  auto *e = std::cerr.rdbuf (es.rdbuf ());
  std::cin.clear ();
  int r = f ((int)a.size (), v.data ());
  std::cin.rdbuf (b), std::cout.rdbuf (c), std::cerr.rdbuf (e);
  out = os.str ();
  return r;
}
static void
table (const std::string &s, std::vector<std::vector<double> > &t)
{
  std::istringstream is (s);
  std::string l;
  t.clear ();
  while (getline (is, l))
    {
      std::istringstream ls (l);
      t.emplace_back ();
      double x;
      while (ls >> x)
        t.back ().push_back (x);
    }
}
static std::string fmt (double x, const char *f) { char b[64]; snprintf (b, 64, f, x); return b; }

void
check (orc::Rng &r)
{
  do
    {
      for (auto &e : eqs)
        {
          double lam = r.n (0, 3) ? r.u (2000, 30000) : r.u (900, 100000), x = 10 / lam;
          if (std::fabs (x * x / e.b1 - 1) < 0.02 || std::fabs (x * x / e.b2 - 1) < 0.02)
            continue; // too close to a resonance to compare rounded values
          orc::begin ("%s at wavenumber %.17g", e.name, x);
          L s = (L)x * x, n = 1 + (L)e.off + e.a1 / (e.b1 - s) + e.a2 / (e.b2 - s);
          L d = n + x * (2 * e.a1 * x / ((e.b1 - s) * (e.b1 - s)) + 2 * e.a2 * x / ((e.b2 - s) * (e.b2 - s)));
          double y, z;
          e.g (x, y, z);
          orc::expect (y / x - 1, n - 1, "refractivity (three-argument form)", 1e-9, 1e-14);
          orc::expect (e.f (x) / x - 1, n - 1, "refractivity (one-argument form)", 1e-9, 1e-14);
          orc::expect (z - 1, d - 1, "derivative", 1e-7, 1e-13);
          if (lam < 1900)
            continue; // not invertible below the resonances
          // the solver meets its accuracy goal
          double goal = std::pow (10.0, -(double)r.n (4, 12)), c = e.f (x), guess = c * (r.n (0, 2) ? 1 : r.u (0.9, 1.1));
          orc::begin ("%s: solve for %.17g from %.17g, accuracy %g", e.name, c, guess, goal);
          orc::expect (especia::solve<double> (*e.g, c, guess, goal), x, "solution", 2 * goal, 1e-15);
          orc::begin ("%s: solve for %.17g with no iteration allowed", e.name, c);
          try
            {
              especia::solve<double> (*e.g, c, guess, goal, 0);
              orc::witness ("returned without error");
            }
          catch (std::runtime_error &)
            {
            }
        }
      // utilities on random files
      unsigned rows = r.n (1, 12), skip = r.n (0, 3), cols = r.n (2, 3);
      std::string in;
      std::vector<std::vector<double> > t, o;
      for (unsigned i = 0; i < skip; i++)
        in += r.n (0, 1) ? "# header\n" : "1 2 3\n";
      for (unsigned i = 0; i < rows; i++)
        {
          std::vector<double> row{ r.u (2000, 12000), r.normal (), std::fabs (r.normal ()) };
          row.resize (cols);
          for (auto &v : row)
            {
              std::string f = fmt (v, "%.9g");
              v = atof (f.c_str ());
              in += f + " ";
            }
          in += "\n";
          t.push_back (row);
        }
      double v = r.n (0, 4) ? atof (fmt (r.u (-3e5, 3e5), "%.8g").c_str ()) : r.n (0, 1) ? 0 : r.u (-2e8, 2e8);
      int tool = r.n (0, 2);
      Args a{ "tool" };
      if (tool == 2)
        a.push_back (fmt (v, "%.17g"));
      if (skip || r.n (0, 1))
        a.push_back (std::to_string (skip));
      std::string out;
      orc::begin ("%s %s %s < \n%s", tool == 0 ? "airtovac" : tool == 1 ? "vactoair" : "helicorr", a.size () > 1 ? a[1].c_str () : "", a.size () > 2 ? a[2].c_str () : "", in.c_str ());
      int rc = run (tool == 0 ? A::tool_main : tool == 1 ? V::tool_main : H::tool_main, a, in, out);
      if (rc != 0)
        orc::witness ("exit code %d", rc);
      table (out, o);
      if (o.size () != rows)
        orc::witness ("%zu rows written for %u rows read", o.size (), rows);
      for (unsigned i = 0; i < rows; i++)
        {
          double x = t[i][0], y;
          if (o[i].size () < cols)
            orc::witness ("row %u has %zu columns", i, o[i].size ());
          if (tool == 1)
            {
              L s = (10 / (L)x) * (10 / (L)x);
              y = x / (1 + 8.34213E-05L + 1.5997E-10L / (0.0000389L - s) + 2.406030E-08L / (0.000130L - s));
            }
          else if (tool == 0)
            {
              L w = x; // fixed point inversion
              for (int k = 0; k < 60; k++)
                {
                  L s = (10 / w) * (10 / w);
                  w = x * (1 + 8.34213E-05L + 1.5997E-10L / (0.0000389L - s) + 2.406030E-08L / (0.000130L - s));
                }
              y = w;
            }
          else
            y = x * sqrtl ((1 + (L)v / 299792458) / (1 - (L)v / 299792458));
          orc::expect (o[i][0], y, ("wavelength in row " + std::to_string (i)).c_str (), 3e-8, 2e-6);
          for (unsigned c = 1; c < cols; c++)
            orc::expect (o[i][c], t[i][c], ("column " + std::to_string (c) + " of row " + std::to_string (i)).c_str (), 2e-6);
        }
      orc::begin ("%d: tool with bad rows", tool);
      rc = run (tool == 0 ? A::tool_main : tool == 1 ? V::tool_main : H::tool_main, tool == 2 ? Args{ "t", "10" } : Args{ "t" }, "1 2 3\nabc\n", out);
      if (rc != 16)
        orc::witness ("exit code %d", rc);
      double vel = r.u (-2e8, 2e8);
      orc::begin ("redshift(%.17g)", vel);
      orc::expect (especia::redshift (vel), sqrtl ((1 + (L)vel / 299792458) / (1 - (L)vel / 299792458)) - 1, "value", 1e-9, 1e-15);
    }
  while (orc::more ());
}
