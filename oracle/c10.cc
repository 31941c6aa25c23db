// C10: references resolve to the parameter at the end of the chain, faulty definitions are rejected
#include "model_ref.h"

void
check (orc::Rng &r)
{
  do
    {
      mdl::Def d = mdl::random (r);
      const int fault = r.n (0, 11);
      const char *what = "no fault";
      bool accept = true;
      std::vector<int> cand;
      std::string t;
      const auto set = [&] (const char *w) { what = w, accept = false; };
      const int p = r.n (0, d.par.size () - 1);
      const auto &es = d.kind[p] == 0 ? d.sections : d.lines;
      const size_t q = r.n (0, d.sections.size () - 1);
      if (fault == 1)
        d.badref[p] = "undefined", set ("undefined reference");
      else if (fault == 2)
        d.par[p].ref = d.par[p].entry, set ("self reference");
      else if (fault == 3 and es.size () > 1)
        {
          // a cycle of references through some entries
          const unsigned n = r.n (2, es.size ());
          std::vector<int> e (1, d.par[p].entry);
          for (unsigned i = 0; i < es.size (); i++)
            if (int (i) != e[0] and e.size () < n)
              e.push_back (i);
          for (unsigned i = 0; i < n; i++)
            d.par[es[e[i]].first + (p - es[d.par[p].entry].first)].ref = e[(i + 1) % n];
          set ("cyclic reference");
        }
      else if (fault == 4 and d.sections.size () > 1)
        d.sections[0].name = d.sections.back ().name, set ("duplicate section name");
      else if (fault == 5 and d.lines.size () > 1)
        d.lines[0].name = d.lines.back ().name, set ("duplicate line name");
      else if (fault == 6)
        d.secs[q].file = d.dir + "/missing", set ("missing data file");
      else if (fault == 7)
        d.secs[q].a = 5000, d.secs[q].b = 6000, set ("no data in the interval");
      t = d.text (r);
      if (fault == 8)
        t = r.n (0, 1) ? "" : "only text\n", set ("no section");
      else if (fault == 9)
        t = "no section here }\n" + t, set ("end of a section without a beginning");
      else if (fault == 10)
        {
          // one row of parameters is cut short
          std::istringstream is (d.text (r));
          std::string l, o;
          std::vector<std::string> ls;
          std::vector<size_t> rows;
          while (std::getline (is, l))
            {
              double a, b, c;
              bool f;
              std::istringstream x (l);
              if (x >> a >> b >> c >> f)
                rows.push_back (ls.size ());
              ls.push_back (l);
            }
          const size_t k = rows[r.n (0, rows.size () - 1)];
          ls[k] = "1.0 bad 3";
          for (const std::string &s : ls)
            o += s + "\n";
          t = o;
          set ("malformed row");
        }
      orc::begin ("%s, model definition:\n%.4000s", what, t.c_str ());
      // is the data of each section readable?
      if (accept)
        for (const mdl::Sec &s : d.secs)
          {
            especia::Section sec;
            std::ifstream f (s.file.c_str ());
            sec.get (f, s.a, s.b);
            if (not f and not f.eof ())
              accept = false;
            if (sec.valid_data_count () == 0)
              accept = false;
          }
      alarm (20);
      std::vector<mdl::Model> m;
      const bool ok = mdl::parse (t, m);
      alarm (0);
      if (ok and not accept and what != std::string ("no fault"))
        orc::witness ("the definition is accepted (%s)", what);
      if (not ok and accept)
        orc::witness ("the definition is rejected");
      if (ok and accept)
        mdl::agree (d, m[0], r);
    }
  while (orc::more ());
  mdl::cleanup ();
}
