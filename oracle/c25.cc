// Block readers and line reader against an independent tokenisation of random texts.
#include "oracle.h"
#include <sstream>
#include <string>
#include <vector>
#include "core/readline.h"
#include "core/readline.cxx"

using std::string;
using std::vector;

static string token (orc::Rng &r, int kind)
{
  char b[64];
  switch (kind)
    {
    case 0: snprintf (b, sizeof b, "%.6g", r.u (-1e3, 1e3)); return b;
    case 1: snprintf (b, sizeof b, "%d", (int) r.n (0, 100000)); return b;
    case 2: return r.n (0, 1) ? "1" : "0";
    default: return r.n (0, 1) ? "x" : "7e";
    }
}
static string sep (orc::Rng &r) { static const char *s[] = {" ", "  ", "\t", "\n", " \n "}; return s[r.n (0, 4)]; }

static const char *flat (const string &t) { static string b; b = t; for (char &c : b) if (c == '\n') c = '|'; return b.c_str (); }

static bool number (const string &t, double &x)
{
  if (t == "x" or t == "7e") return false;
  x = atof (t.c_str ());
  return true;
}

static void blocks (orc::Rng &r)
{
  const int cols = (int) r.n (1, 6);      // 6: four columns and a reference
  static const int kinds[7][5] = {{0}, {0}, {0, 1}, {0, 0, 2}, {0, 0, 0, 1}, {0, 0, 0, 1, 2}, {0, 0, 0, 2}};
  const int nc = cols == 6 ? 4 : cols;
  const size_t rows = r.n (0, 5), want = r.n (0, 6);
  const bool append = r.n (0, 1);
  string text;
  vector<vector<string>> table;
  vector<string> refs;
  bool stop = false;
  const bool newline_at_end = r.n (0, 1);
  for (size_t i = 0; i < rows; ++i)
    {
      vector<string> row;
      for (int j = 0; j < nc; ++j)
        {
          string t = token (r, r.n (0, 60) == 0 ? 3 : kinds[cols][j]);
          if (t == "7e" and kinds[cols][j] != 0) t = "x";
          row.push_back (t);
          text += t;
          if (j + 1 < nc or cols != 6) text += cols == 6 ? string (" ") : (i + 1 == rows and j + 1 == nc and not newline_at_end) ? string () : sep (r);
        }
      string ref;
      if (cols == 6)
        {
          static const char *rest[] = {"", " ", " a", "  ref1 more words", "\tb1"};
          static const char *refv[] = {"", "", "a", "ref1", "b1"};
          const int q = (int) r.n (0, 4);
          text += rest[q];
          ref = refv[q];
          if (i + 1 < rows or newline_at_end) text += "\n";
          // an empty remainder of the last line cannot be read as a line
          if (i + 1 == rows and not newline_at_end and *rest[q] == 0) { row.clear (); }
        }
      table.push_back (row);
      refs.push_back (ref);
    }
  // rows that can be read
  size_t good = 0;
  for (; good < table.size () and not stop; ++good)
    {
      bool ok = (int) table[good].size () == nc;
      double x;
      for (auto &t : table[good]) ok = ok and number (t, x);
      if (not ok) { stop = true; break; }
    }
  vector<vector<double>> old (nc), exp (nc);
  vector<string> os, es;
  const size_t had = r.n (0, 3);
  for (int j = 0; j < nc; ++j)
    for (size_t i = 0; i < had; ++i) old[j].push_back (kinds[cols][j] == 2 ? 1.0 : (double) r.n (1, 9));
  for (size_t i = 0; i < had; ++i) os.push_back ("old");
  vector<double> a (old[0]), b, c;
  vector<unsigned> d, n2;
  vector<bool> e;
  vector<string> s (os);
  for (double x : old[nc > 1 ? 1 : 0]) { b.push_back (x); n2.push_back ((unsigned) x); }
  if (nc > 2) for (double x : old[2]) c.push_back (x);
  if (nc > 3) for (double x : old[3]) d.push_back ((unsigned) x);
  if (nc > 2) for (double x : old[nc - 1]) e.push_back (x != 0);
  std::istringstream is (text);
  orc::begin ("%d columns, %zu rows wanted, append %d, text of %zu bytes: %.200s", cols, want, append, text.size (), flat (text));
  switch (cols)
    {
    case 1: especia::read (is, a, want, append); break;
    case 2: especia::read (is, a, n2, want, append); break;
    case 3: especia::read (is, a, b, e, want, append); break;
    case 4: especia::read (is, a, b, c, d, want, append); break;
    case 5: especia::read (is, a, b, c, d, e, want, append); break;
    default: especia::read (is, a, b, c, e, s, want, '\n', append); break;
    }
  const bool expect = want <= good;
  if (bool (is) != expect)
    orc::witness ("reading %s, expected %s (%zu complete rows)", is ? "succeeded" : "failed", expect ? "success" : "failure", good);
  auto col = [&] (int j, int kind) {
    vector<double> v;
    if (j == 0) return a;
    if (cols == 2) { for (unsigned x : n2) v.push_back (x); return v; }
    if (j == 1) return b;
    if (kind == 2) { for (bool x : e) v.push_back (x); return v; }
    if (j == 2) return c;
    for (unsigned x : d) v.push_back (x);
    return v;
  };
  for (int j = 0; j < nc; ++j)
    {
      vector<double> ref = (not expect or append) ? old[j] : vector<double> ();
      if (expect)
        for (size_t i = 0; i < want; ++i) { double x; number (table[i][j], x); ref.push_back (x); }
      const vector<double> got = col (j, kinds[cols][j]);
      if (got.size () != ref.size ()) orc::witness ("column %d has %zu values, expected %zu", j, got.size (), ref.size ());
      for (size_t i = 0; i < ref.size (); ++i)
        if (got[i] != ref[i]) orc::witness ("value %zu of column %d is %g, expected %g", i, j, got[i], ref[i]);
    }
  if (cols == 6)
    {
      vector<string> ref = (not expect or append) ? os : vector<string> ();
      if (expect) for (size_t i = 0; i < want; ++i) ref.push_back (refs[i]);
      if (s != ref) orc::witness ("references differ (%zu, expected %zu)", s.size (), ref.size ());
    }
}

static void lines (orc::Rng &r)
{
  const char mark = r.n (0, 3) == 0 ? '\0' : "%#!"[r.n (0, 2)];
  string text;
  vector<string> all;
  const size_t n = r.n (0, 8);
  for (size_t i = 0; i < n; ++i)
    {
      string l;
      const size_t m = r.n (0, 1) ? 0 : r.n (0, 12);
      for (size_t k = 0; k < m; ++k) l += " \tab%#!1 "[r.n (0, 8)];
      all.push_back (l);
      text += l;
      if (i + 1 < n or r.n (0, 1)) text += '\n';
      else if (l.empty ()) all.pop_back ();
    }
  vector<string> ref;
  for (auto l : all)
    {
      if (mark != '\0')
        {
          const size_t p = l.find (mark);
          if (p != string::npos) l = l.substr (0, p);
          if (l.find_first_not_of (" \t\r\v\f") == string::npos) continue;
        }
      ref.push_back (l);
    }
  orc::begin ("lines with mark '%c': %.300s", mark ? mark : '0', flat (text));
  std::istringstream is (text);
  string l;
  size_t k = 0;
  while (especia::readline (is, l, mark))
    {
      if (k >= ref.size ()) orc::witness ("more lines than expected: '%s'", l.c_str ());
      if (l != ref[k]) orc::witness ("line %zu is '%s', expected '%s'", k, l.c_str (), ref[k].c_str ());
      ++k;
    }
  if (k != ref.size ()) orc::witness ("%zu lines, expected %zu", k, ref.size ());
}

void check (orc::Rng &r)
{
  do { blocks (r); lines (r); } while (orc::more ());
}
