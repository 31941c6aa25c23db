// Column data files: random texts read, merged and written, against an independent reading.
#include "oracle.h"
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <valarray>
#include <vector>
#include "core/base.h"
#include "core/dataio.h"
#include "core/dataio.cxx"
#include "core/exitcodes.h"
#define main tool_main
#include "apps/ezip.cxx"
#undef main
using std::string;
using std::vector;

struct Table
{
  string text;
  vector<string> lines;
};
static string num (const char *f, double x) { char b[64]; snprintf (b, sizeof b, f, x); return b; }
static string flat (string t) { for (char &c : t) if (c == '\n') c = '|'; return t; }

// rows behind the skipped lines: false if some row has no two numbers
static bool rows (const Table &t, size_t skip, vector<double> v[3])
{
  for (size_t i = skip; i < t.lines.size (); ++i)
    {
      const char *p = t.lines[i].c_str ();
      double a[3] = {0, 0, 0};
      int n = 0;
      for (; n < 3; ++n)
        {
          char *e;
          a[n] = strtod (p, &e);
          if (e == p) break;
          p = e;
        }
      if (n < 2) return false;
      if (n < 3) a[2] = 0;
      for (int j = 0; j < 3; ++j) v[j].push_back (a[j]);
    }
  return true;
}

static Table table (orc::Rng &r, size_t n, size_t skip, double bad)
{
  Table t;
  for (size_t i = 0; i < skip; ++i) t.lines.push_back (r.n (0, 1) ? "header line" : "1 2 3");
  for (size_t i = 0; i < n; ++i)
    {
      string l = num ("%.8g", r.u (1000, 9000)) + " " + num ("%.8g", r.u (-2, 2));
      if (r.u (0, 1) < bad) l = r.n (0, 1) ? num ("%.3f", r.u (0, 9)) : r.n (0, 1) ? "" : "abc 1 2";
      else
        switch (r.n (0, 4))
          {
          case 0: break;
          case 1: l += " n.a."; break;
          case 2: l = "  " + l + "\t" + num ("%.6e", r.u (0, 1)) + " 7 more"; break;
          default: l += " " + num ("%.6g", r.u (0, 1));
          }
      t.lines.push_back (l);
    }
  for (size_t i = 0; i < t.lines.size (); ++i) t.text += t.lines[i] + (i + 1 < t.lines.size () or r.n (0, 1) or t.lines[i].empty () ? "\n" : "");
  return t;
}

static void reading (orc::Rng &r)
{
  const size_t skip = r.n (0, 3), have = r.n (0, 3);
  const Table t = table (r, r.n (0, 8), have, r.n (0, 2) ? 0 : 0.2);
  const int cols = (int) r.n (2, 3);
  std::valarray<double> c[3];
  const size_t had = r.n (0, 4);
  for (auto &x : c) x.resize (had, -7.0);
  std::istringstream is (t.text);
  orc::begin ("%d columns, %zu lines to skip: %.400s", cols, skip, flat (t.text).c_str ());
  if (cols == 2) especia::get (is, c[0], c[1], (unsigned) skip);
  else especia::get (is, c[0], c[1], c[2], (unsigned) skip);
  vector<double> v[3];
  const bool ok = rows (t, skip, v) and v[0].size () > 0;
  if (bool (is) != ok) orc::witness ("reading %s, expected %s", is ? "succeeded" : "failed", ok ? "success" : "failure");
  for (int j = 0; j < cols; ++j)
    {
      if (c[j].size () != (ok ? v[j].size () : had)) orc::witness ("column %d has %zu values", j, c[j].size ());
      for (size_t i = 0; i < c[j].size (); ++i)
        if (c[j][i] != (ok ? v[j][i] : -7.0)) orc::witness ("row %zu of column %d is %.17g, expected %.17g", i, j, c[j][i], ok ? v[j][i] : -7.0);
    }
}

static string written (const vector<double> v[3], bool third)
{
  string s;
  for (size_t i = 0; i < v[0].size (); ++i)
    s += num ("%14.6f", v[0][i]) + num ("%14.6e", v[1][i]) + (third ? num ("%14.6e", v[2][i]) : string ()) + "\n";
  return s;
}

static void writing (orc::Rng &r)
{
  const size_t n = r.n (0, 6);
  const bool third = r.n (0, 1);
  vector<double> v[3];
  std::valarray<double> c[3];
  for (int j = 0; j < 3; ++j)
    {
      c[j].resize (j < 2 or third ? n : 0);
      for (size_t i = 0; i < n; ++i) { v[j].push_back (j ? r.u (-10, 10) : r.u (1000, 9999)); if (c[j].size ()) c[j][i] = v[j][i]; }
    }
  std::ostringstream os;
  if (r.n (0, 1)) os.setf (std::ios_base::left, std::ios_base::adjustfield);
  const auto f = os.flags ();
  orc::begin ("%zu rows of %d columns written", n, third ? 3 : 2);
  especia::put (os, c[0], c[1], c[2]);
  if (os.str () != written (v, third)) orc::witness ("wrote %.300s", flat (os.str ()).c_str ());
  if (os.flags () != f) orc::witness ("format flags changed");
}

static void merging (orc::Rng &r)
{
  char dir[] = "/tmp/orc18XXXXXX";
  if (not mkdtemp (dir)) return;
  const size_t skip = r.n (0, 2), n = r.n (1, 6);
  Table a = table (r, n, skip, r.n (0, 6) ? 0 : 0.3), b = table (r, r.n (0, 3) ? n : r.n (0, 7), skip, r.n (0, 6) ? 0 : 0.3);
  // the same wavelengths in both files
  for (size_t i = skip; i < a.lines.size () and i < b.lines.size (); ++i)
    {
      const size_t p = a.lines[i].find_first_not_of (' '), q = b.lines[i].find_first_not_of (' ');
      if (p == string::npos or q == string::npos) continue;
      const size_t pe = a.lines[i].find_first_of (" \t", p), qe = b.lines[i].find_first_of (" \t", q);
      if (pe == string::npos or qe == string::npos) continue;
      b.lines[i] = b.lines[i].substr (0, q) + a.lines[i].substr (p, pe - p) + b.lines[i].substr (qe);
    }
  b.text.clear ();
  for (auto &l : b.lines) b.text += l + "\n";
  string fa = string (dir) + "/flux", fb = string (dir) + "/unc", sk = std::to_string (skip), none = string (dir) + "/none";
  std::ofstream (fa) << a.text;
  std::ofstream (fb) << b.text;
  const bool missing = r.n (0, 9) == 0, bad = r.n (0, 14) == 0;
  string prog = "ezip";
  if (bad) sk = "x";
  vector<string> args = {prog, fa, missing ? none : fb};
  if (skip or bad or r.n (0, 1)) args.push_back (sk);
  vector<char *> argv;
  for (auto &s : args) argv.push_back (&s[0]);
  argv.push_back (nullptr);
  orc::begin ("ezip with %zu arguments, %zu lines to skip%s: %.300s with %.300s", args.size (), skip, missing ? ", missing file" : "", flat (a.text).c_str (), flat (b.text).c_str ());
  std::ostringstream out, err;
  std::streambuf *o = std::cout.rdbuf (out.rdbuf ()), *e = std::cerr.rdbuf (err.rdbuf ());
  const int rc = tool_main ((int) args.size (), argv.data ());
  std::cout.rdbuf (o);
  std::cerr.rdbuf (e);
  unlink (fa.c_str ());
  unlink (fb.c_str ());
  rmdir (dir);
  vector<double> v[3], w[3];
  const bool ok = not bad and not missing and rows (a, skip, v) and rows (b, skip, w) and v[0].size () == w[0].size () and v[0].size () > 0;
  if ((rc == 0) != ok) orc::witness ("exit code %d, expected %s", rc, ok ? "success" : "an error");
  v[2] = w[1];
  if (out.str () != (ok ? written (v, true) : string ())) orc::witness ("wrote %.300s, expected %.300s", flat (out.str ()).c_str (), flat (ok ? written (v, true) : string ()).c_str ());
}

void check (orc::Rng &r)
{
  do { reading (r); reading (r); writing (r); merging (r); } while (orc::more ());
}
