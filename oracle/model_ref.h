// Random model definitions and what they mean, independent of the parser of the code under test.
#ifndef MODEL_REF_H
#define MODEL_REF_H
#include "oracle.h"
#include <algorithm>
#include <cstring>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <map>
#include <unistd.h>
#ifndef PUBLIC_ONLY
#define private public
#endif
#include "config.h"
#include "model.h"
#undef private
#include "core/section.cxx"
#include "core/profiles.cxx"
#include "core/readline.cxx"
namespace mdl
{
using especia::natural;
using especia::real;
typedef especia::Intergalactic_Doppler Line;
const unsigned PC = 6;

struct Par
{
  double val, lo, up;
  bool free;
  int entry;       // section or line it belongs to
  int ref = -1;    // entry it refers to
  int owner = -1;  // parameter at the end of the chain
  int comp = -1;   // component of the parameter vector (of the owner)
};

struct Entry
{
  std::string name;
  int first; // first parameter
};

struct Sec
{
  std::string file;
  double a, b;
  unsigned nle, nl;
  std::vector<double> masks;
  int res; // index of the resolution parameter
};

struct Def
{
  std::vector<Sec> secs;
  std::vector<Entry> sections, lines;
  std::vector<Par> par;
  std::vector<int> kind; // per parameter: 0 resolution, 1 line
  std::string dir;
  std::map<int, std::string> badref;
  natural count = 0;

  int
  target (int p) const
  {
    const Par &q = par[p];
    return kind[p] == 0 ? sections[q.ref].first : lines[q.ref].first + (p - lines[q.entry].first);
  }
  void
  resolve ()
  {
    int k = 0;
    for (size_t p = 0; p < par.size (); p++)
      if (par[p].ref < 0 and par[p].free)
        par[p].comp = k++;
    for (size_t p = 0; p < par.size (); p++)
      {
        int o = p;
        for (size_t t = 0; par[o].ref >= 0 and t <= par.size (); t++)
          o = target (o);
        par[p].owner = o;
      }
    count = std::max (k, 1);
  }
  // the effective attributes of a parameter
  const Par &at (int p) const { return par[par[p].owner]; }
  double low (int p) const { return std::min (at (p).lo, at (p).up); }
  double high (int p) const { return std::max (at (p).lo, at (p).up); }

  std::string
  text (orc::Rng &r) const
  {
    std::ostringstream o;
    o << std::setprecision (17);
    int p = 0, l = 0;
    const auto blank = [&] () {
      if (r.n (0, 5) == 0)
        o << (r.n (0, 1) ? "  \n" : "% a remark { } with marks\n");
    };
    const auto row = [&] () {
      const Par &q = par[p];
      o << q.val << ' ' << q.lo << ' ' << q.up << ' ' << q.free;
      if (badref.count (p))
        o << ' ' << badref.at (p);
      else if (q.ref >= 0)
        o << "   " << (kind[p] == 0 ? sections : lines)[q.ref].name << (r.n (0, 2) ? "" : " and more");
      o << (r.n (0, 4) ? "\n" : " % remark\n");
      p++;
      blank ();
    };
    for (size_t i = 0; i < secs.size (); i++)
      {
        const Sec &s = secs[i];
        o << (r.n (0, 2) ? "text before the section\n" : "") << "{\n";
        blank ();
        o << sections[i].name << " " << s.file << " " << s.a << " " << s.b << " " << s.nle;
        for (double m : s.masks)
          o << ' ' << m;
        o << '\n';
        blank ();
        row ();
        for (unsigned j = 0; j < s.nl; j++)
          {
            o << lines[l++].name << '\n';
            blank ();
            for (unsigned k = 0; k < PC; k++)
              row ();
          }
        o << "}\n";
      }
    return o.str ();
  }
};

inline std::string
scratch ()
{
  static std::string d;
  if (d.empty ())
    {
      char t[] = "/tmp/mdlXXXXXX";
      d = mkdtemp (t);
    }
  return d;
}

inline void
cleanup ()
{
  for (int i = 0; i < 4; i++)
    unlink ((scratch () + "/d" + char ('0' + i)).c_str ());
  rmdir (scratch ().c_str ());
}

inline Def
random (orc::Rng &r)
{
  Def d;
  d.dir = scratch ();
  const unsigned ns = r.n (1, 3);
  for (unsigned f = 0; f < ns; f++)
    {
      std::ofstream o ((d.dir + "/d" + char ('0' + f)).c_str ());
      const unsigned n = r.n (8, 30);
      for (unsigned i = 0; i < n; i++)
        o << 1000 + 10 * i << ' ' << 1 + 0.1 * r.u (-1, 1) << ' ' << r.u (0.05, 0.2) << '\n';
    }
  static const char *names[] = { "b", "zz", "A", "x1", "c", "m", "Q", "a2", "k", "w9", "e", "y" };
  std::vector<std::string> pool (names, names + 12);
  for (size_t i = pool.size () - 1; i > 0; i--)
    std::swap (pool[i], pool[r.n (0, i)]);
  size_t u = 0;
  for (unsigned i = 0; i < ns; i++)
    {
      Sec s;
      s.file = d.dir + "/d" + char ('0' + r.n (0, ns - 1));
      s.a = r.n (0, 1) ? 900 : 1000 + 10 * r.n (0, 3);
      s.b = r.n (0, 1) ? 2000 : 1050 + 10 * r.n (0, 5);
      s.nle = r.n (1, 3);
      s.nl = r.n (0, 3);
      for (unsigned k = r.n (0, 2); k > 0; k--)
        {
          const double m = r.u (950, 1200);
          s.masks.push_back (m);
          s.masks.push_back (m + r.u (0, 15));
        }
      const auto add = [&] (int kind, int entry, double lo, double up) {
        Par p;
        p.lo = r.u (lo, up), p.up = r.u (lo, up), p.val = r.u (lo, up);
        p.free = r.n (0, 1);
        p.entry = entry;
        d.par.push_back (p);
        d.kind.push_back (kind);
      };
      s.res = d.par.size ();
      d.sections.push_back (Entry { r.n (0, 3) ? pool[u] : "s", int (d.par.size ()) });
      if (d.sections.back ().name == "s")
        d.sections.back ().name += char ('0' + i);
      u++;
      add (0, i, 20, 60);
      for (unsigned j = 0; j < s.nl; j++)
        {
          const int e = d.lines.size ();
          // lines and sections have separate name spaces
          d.lines.push_back (Entry { e < 3 and r.n (0, 3) == 0 ? "s" + std::string (1, char ('0' + e)) : pool[e] , int (d.par.size ()) });
          static const double range[][2] = { { 1000, 1200 }, { 0.01, 0.5 }, { 0, 0.01 }, { -100, 100 }, { 1, 40 }, { 11, 15 } };
          for (unsigned k = 0; k < PC; k++)
            add (1, e, range[k][0], range[k][1]);
        }
      d.secs.push_back (s);
    }
  // references that follow a random order, so that chains end
  std::vector<double> so (d.sections.size ());
  for (double &x : so)
    x = r.u ();
  std::vector<double> lo (d.lines.size ());
  for (size_t p = 0; p < d.par.size (); p++)
    {
      const auto &es = d.kind[p] == 0 ? d.sections : d.lines;
      if (es.size () < 2 or r.n (0, 2))
        continue;
      // the order of the entries depends on the position within the line, so that chains go back and forth
      const auto rank = [&] (int e) { return std::fmod (7.31 * e + 3.17 * (d.kind[p] == 0 ? 0 : int (p) - d.lines[d.par[p].entry].first) + 0.5 + (d.kind[p] == 0 ? so[0] : 0), 1.0); };
      const int e = r.n (0, es.size () - 1);
      if (rank (e) < rank (d.par[p].entry))
        d.par[p].ref = e;
    }
  d.resolve ();
  return d;
}

typedef especia::Model<Line> Model;

// returns whether the definition is accepted
inline bool
parse (const std::string &text, std::vector<Model> &m)
{
  std::istringstream is (text);
  std::ostringstream os;
  try
    {
      m.push_back (Model::parse (is, os));
    }
  catch (std::runtime_error &)
    {
      return false;
    }
  return true;
}

// the numbers in the cells of a row of the parameter table
inline std::vector<std::string>
cells (const std::string &html, const std::string &id)
{
  std::vector<std::string> r;
  size_t i = html.find ("<td>" + id + "</td>");
  const size_t e = i == std::string::npos ? i : html.find ("</tr>", i);
  while (i < e)
    {
      const size_t j = html.find ("</td>", i);
      r.push_back (html.substr (i + 4, j - i - 4));
      i = html.find ("<td>", j);
    }
  return r;
}

inline void
cell (const std::string &what, const std::string &c, double val, double unc, bool free, double tol, double rel)
{
  double a = 0, b = 0;
  const char *s = c.c_str ();
  char *e = nullptr;
  a = strtod (s, &e);
  const bool pm = strstr (e, "&plusmn;") != nullptr;
  if (pm)
    b = strtod (strstr (e, "&plusmn;") + 8, nullptr);
  const auto differs = [&] (double x, double y) { return not(std::fabs (x - y) <= tol + rel * std::fabs (y)); };
  if (e == s or differs (a, val) or (free ? not pm or differs (b, unc) : pm and b != 0))
    orc::witness ("%s is reported as '%s', expected %.10g +- %.10g", what.c_str (), s, val, free ? unc : 0.0);
}

// the parameter table has each parameter in its place
inline void
report (const Def &d, const Model &n, const std::vector<double> &full, const std::vector<double> &unc)
{
  std::ostringstream os;
  n.put (os);
  std::string t = os.str ();
  const size_t h = t.find ("<table"), l = t.find ("<table", h + 1);
  if (h == std::string::npos or l == std::string::npos)
    return;
  const auto un = [&] (int p) { return d.at (p).free ? unc[d.at (p).comp] : 0.0; };
  for (size_t i = 0; i < d.sections.size (); i++)
    {
      const auto c = cells (t.substr (h, l - h), d.sections[i].name);
      if (c.size () != 8)
        orc::witness ("section %s has %zu columns in the table of sections", d.sections[i].name.c_str (), c.size ());
      const int p = d.secs[i].res;
      cell ("resolution of section " + d.sections[i].name, c[4], full[p], un (p), d.at (p).free, 0.011, 1e-12);
      if (atoi (c[3].c_str ()) != (int) d.secs[i].nle)
        orc::witness ("section %s: %s basis polynomials reported, expected %u", d.sections[i].name.c_str (), c[3].c_str (), d.secs[i].nle);
    }
  for (const Entry &q : d.lines)
    {
      const auto c = cells (t.substr (l), q.name);
      if (c.size () != 9)
        orc::witness ("line %s has %zu columns in the table of lines", q.name.c_str (), c.size ());
      const double tol[] = { 1.01e-4, 0, 1.01e-7, 1.01e-3, 1.01e-3, 1.01e-3 };
      for (int k = 0; k < 6; k++)
        {
          char b[20];
          snprintf (b, 20, "%d", k);
          const int p = q.first + k;
          cell ("parameter " + std::string (b) + " of line " + q.name, c[2 + k], full[p], un (p), d.at (p).free, tol[k], k == 1 ? 1.01e-3 : 1e-12);
        }
      const double z = 1 + full[q.first + 2], x = full[q.first] * z * (1 + full[q.first + 3] / (1e-3 * 299792458.0));
      if (not orc::close (strtod (c[1].c_str (), nullptr), x, 1e-12, 1.01e-4))
        orc::witness ("the observed wavelength of line %s is reported as %s, expected %.10g", q.name.c_str (), c[1].c_str (), x);
    }
}

inline void
agree (const Def &d, const Model &m, orc::Rng &r)
{
  if (m.get_parameter_count () != d.count)
    orc::witness ("%u components, expected %u", m.get_parameter_count (), d.count);
  const std::valarray<real> x = m.get_initial_parameter_values (), s = m.get_initial_local_step_sizes ();
  const auto box = m.get_constraint ();
  std::vector<double> mid (d.count), lo (d.count), hi (d.count);
  bool any = false;
  for (size_t p = 0; p < d.par.size (); p++)
    if (d.par[p].comp >= 0)
      {
        const int k = d.par[p].comp;
        any = true;
        lo[k] = d.low (p), hi[k] = d.high (p), mid[k] = 0.5 * (lo[k] + hi[k]);
        if (not orc::close (x[k], mid[k], 1e-14)) orc::witness ("initial value %zu is %.17g, expected %.17g", (size_t) k, x[k], mid[k]);
        if (not(std::fabs (s[k] - 0.5 * (hi[k] - lo[k])) <= 1e-14 * std::fabs (hi[k])))
          orc::witness ("step of component %d is %.17g, expected %.17g", k, s[k], 0.5 * (hi[k] - lo[k]));
      }
  if (any)
    {
      std::vector<double> y (mid);
      if (box.is_violated (&y[0], d.count))
        orc::witness ("the initial values violate the bounds");
      for (natural k = 0; k < d.count; k++)
        for (int side = 0; side < 2; side++)
          {
            const double e = 1e-9 * std::max (1.0, std::fabs (hi[k]));
            y[k] = side ? hi[k] : lo[k];
            if (box.is_violated (&y[0], d.count))
              orc::witness ("component %u at its limit %.17g violates the bounds", k, y[k]);
            y[k] += side ? e : -e;
            if (not box.is_violated (&y[0], d.count))
              orc::witness ("component %u beyond its limit, %.17g, does not violate the bounds", k, y[k]);
            y[k] = mid[k];
          }
    }
  // cost of a random vector
  std::vector<double> v (d.count), unc (d.count);
  for (natural k = 0; k < d.count; k++)
    v[k] = any ? r.u (lo[k], hi[k]) : 1, unc[k] = r.u (0.1, 1);
  std::vector<double> full (d.par.size ());
  for (size_t p = 0; p < d.par.size (); p++)
    full[p] = d.at (p).free ? v[d.at (p).comp] : d.at (p).val;
  double cost = 0;
  bool singular = false, thrown = false;
  for (const Sec &s : d.secs)
    {
      especia::Section sec;
      std::ifstream f (s.file.c_str ());
      sec.get (f, s.a, s.b);
      for (size_t k = 0; k < s.masks.size (); k += 2)
        sec.mask (s.masks[k], s.masks[k + 1]);
      try
        {
          cost += sec.cost (especia::Superposition<Line> (s.nl, full.data () + s.res + 1), full[s.res], s.nle);
        }
      catch (std::runtime_error &)
        {
          singular = true;
        }
    }
  double c = 0;
  try
    {
      c = m (&v[0], d.count);
    }
  catch (std::runtime_error &)
    {
      thrown = true;
    }
  if (thrown != singular)
    orc::witness (thrown ? "the cost of the model raises an error, the costs of its sections do not" : "the cost of a section raises an error, the cost of the model does not");
  if (singular)
    return;
  if (not(std::fabs (c - cost) <= 1e-12 * std::fabs (cost) + 1e-300) and not(c != c and cost != cost))
    orc::witness ("cost %.17g, the sum of the costs of the sections is %.17g", c, cost);
  Model n (m);
  n.set (&v[0], &unc[0]);
  report (d, n, full, unc);
#ifndef PUBLIC_ONLY
  for (size_t p = 0; p < d.par.size (); p++)
    {
      const Par &q = d.at (p);
      if (m.msk[p] != q.free or (not q.free and m.val[p] != q.val))
        orc::witness ("parameter %zu is %s %.17g, expected %s %.17g", p, m.msk[p] ? "free" : "fixed at", m.val[p], q.free ? "free" : "fixed at", q.val);
      if (q.free and (int (m.ind[p]) != q.comp or m.lo[p] != d.low (p) or m.up[p] != d.high (p)))
        orc::witness ("parameter %zu has component %u and limits [%.17g, %.17g], expected %d and [%.17g, %.17g]", p, m.ind[p], m.lo[p], m.up[p], q.comp, d.low (p), d.high (p));
    }
  for (size_t p = 0; p < d.par.size (); p++)
    if (n.val[p] != full[p] or n.unc[p] != (d.at (p).free ? unc[d.at (p).comp] : 0))
      orc::witness ("parameter %zu is reported as %.17g +- %.17g, expected %.17g +- %.17g", p, n.val[p], n.unc[p], full[p], d.at (p).free ? unc[d.at (p).comp] : 0.0);
  double sum = 0;
  for (const especia::Section &s : n.sections)
    sum += s.cost ();
  if (not(std::fabs (sum - cost) <= 1e-9 * std::fabs (cost) + 1e-300) and not(sum != sum and cost != cost))
    orc::witness ("cost after setting the parameters is %.17g, expected %.17g", sum, cost);
#endif
}
} // namespace mdl
#endif
