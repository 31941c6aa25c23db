// Random section data files: reading with an interval and writing back, against an independent reading.
#include "oracle.h"
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "core/section.cxx"
using std::string;
using std::vector;
using especia::Section;

static string num (const char *f, double x) { char b[64]; snprintf (b, sizeof b, f, x); return b; }
static string flat (string t) { for (char &c : t) if (c == '\n') c = '|'; return t; }

struct Row { double x, y, z; bool w; };

// everything a section shows of its data
static vector<Row> content (const Section &s)
{
  std::ostringstream os;
  os.precision (17);
  s.put (os, -1e300, 1e300);
  std::istringstream is (os.str ());
  vector<Row> r;
  string l;
  while (getline (is, l))
    {
      std::istringstream t (l);
      Row q;
      t >> q.x >> q.y >> q.z >> q.w;
      r.push_back (q);
    }
  return r;
}

static bool near (double a, double b) { return std::abs (a - b) <= 1e-7 * std::abs (b); }

void check (orc::Rng &r)
{
  do
    {
      string text;
      vector<Row> all;
      bool malformed = false, ended = false;
      const int n = (int) r.n (0, 12);
      const double a = r.n (0, 4) ? r.u (1000, 2000) : 1500, b = r.n (0, 6) ? r.u (1500, 2500) : a - 1;
      const bool evil = r.n (0, 3) == 0;
      double x = r.u (900, 1400);
      for (int i = 0; i < n; ++i)
        {
          string l;
          x += r.u (10, 200);
          double xx = x;
          if (r.n (0, 7) == 0) xx = a;
          if (r.n (0, 7) == 0) xx = b;
          // the text of a number is what counts
          const string sx = num ("%.17g", xx), sy = num ("%.6g", r.u (-1, 2)), sz = num ("%.6g", r.u (0.1, 1)), sw = r.n (0, 1) ? "1" : "0";
          Row q{atof (sx.c_str ()), atof (sy.c_str ()), 1.0, true};
          bool row = true;
          switch (r.n (0, 9))
            {
            case 0: l = string (1, "#%!"[r.n (0, 2)]) + " comment 1 2 3"; row = false; break;
            case 1: l = sx + " " + sy; break;
            case 2: case 3: l = sx + "  " + sy + "\t" + sz; q.z = atof (sz.c_str ()); break;
            case 4: l = " " + sx + " " + sy + " " + sz + " " + sw + " 9 9 9"; q.z = atof (sz.c_str ()); q.w = sw == "1"; break;
            case 5:
              if (evil)
                {
                  row = false;
                  if (r.n (0, 2) == 0) { l = ""; if (not malformed) ended = true; }
                  else { l = r.n (0, 1) ? sx : "x y z"; if (not ended) malformed = true; }
                  break;
                }
              // fall through
            default: l = sx + " " + sy + " " + sz + " " + sw; q.z = atof (sz.c_str ()); q.w = sw == "1";
            }
          if (row and not ended and not malformed and a <= q.x and q.x <= b) all.push_back (q);
          text += l + "\n";
        }
      if (not text.empty () and r.n (0, 1) and text.size () > 1 and text[text.size () - 2] != '\n') text.pop_back ();
      const bool ok = not malformed and not all.empty ();
      Section s;
      // a section with former content
      size_t had = 0;
      if (r.n (0, 1)) { std::istringstream is ("1 2 3\n4 5 6 0\n"); s.get (is, 0, 10); had = 2; }
      std::istringstream is (text);
      orc::begin ("interval [%.17g, %.17g]: %.600s", a, b, flat (text).c_str ());
      s.get (is, a, b);
      if (bool (is) != ok) orc::witness ("reading %s, expected %s", is ? "succeeded" : "failed", ok ? "success" : "failure");
      if (not ok)
        {
          if (s.data_count () != had) orc::witness ("a failure changes the section");
          continue;
        }
      if (s.data_count () != all.size ()) orc::witness ("%zu rows, expected %zu", (size_t) s.data_count (), all.size ());
      const vector<Row> got = content (s);
      if (got.size () != all.size ()) orc::witness ("%zu rows written, expected %zu", got.size (), all.size ());
      size_t valid = 0;
      for (size_t i = 0; i < all.size (); ++i)
        {
          valid += all[i].w;
          if (not near (got[i].x, all[i].x) or not near (got[i].y, all[i].y) or not near (got[i].z, all[i].z) or got[i].w != all[i].w)
            orc::witness ("row %zu is %.9g %.9g %.9g %d, expected %.9g %.9g %.9g %d", i, got[i].x, got[i].y, got[i].z, got[i].w, all[i].x, all[i].y, all[i].z, all[i].w);
        }
      if (s.valid_data_count () != valid) orc::witness ("%zu valid rows, expected %zu", (size_t) s.valid_data_count (), valid);
      // part of the rows, written and read again
      const double c = r.u (a - 10, b), d = r.u (c, b + 10);
      std::ostringstream os;
      s.put (os, c, d);
      vector<Row> part;
      for (auto &q : all) if (c <= q.x and q.x <= d) part.push_back (q);
      Section t;
      std::istringstream back (os.str ());
      const bool again = bool (t.get (back, -1e300, 1e300));
      if (again != (part.size () > 0)) orc::witness ("reading the output again %s", again ? "succeeded" : "failed");
      if (again)
        {
          const vector<Row> g = content (t);
          if (g.size () != part.size ()) orc::witness ("%zu rows read again, expected %zu", g.size (), part.size ());
          for (size_t i = 0; i < part.size (); ++i)
            if (not near (g[i].x, part[i].x) or not near (g[i].y, part[i].y) or not near (g[i].z, part[i].z) or g[i].w != part[i].w)
              orc::witness ("row %zu read again is %.9g %.9g %.9g %d", i, g[i].x, g[i].y, g[i].z, g[i].w);
        }
    }
  while (orc::more ());
}
