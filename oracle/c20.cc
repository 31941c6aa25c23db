// The extraction tools on random result files against an independent line filter.
#include "oracle.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define main tool_main
namespace ecom {
#include "apps/ecom.cxx"
}
namespace edat {
#include "apps/edat.cxx"
}
namespace elog {
#include "apps/elog.cxx"
}
namespace emes {
#include "apps/emes.cxx"
}
namespace emod {
#include "apps/emod.cxx"
}
#undef main
using std::string;
using std::vector;

static bool in (const vector<string> &v, const string &s) { for (auto &x : v) if (x == s) return true; return false; }

void check (orc::Rng &r)
{
  struct Tool { const char *name; int (*f) (); vector<string> tags; };
  static const Tool tools[] = {{"ecom", ecom::tool_main, {"command"}}, {"edat", edat::tool_main, {"data"}}, {"elog", elog::tool_main, {"log"}},
                               {"emes", emes::tool_main, {"message", "mesg"}}, {"emod", emod::tool_main, {"model", "job", "input"}}};
  static const char *names[] = {"command", "data", "log", "message", "mesg", "model", "job", "input", "html", "table"};
  do
    {
      const Tool &t = tools[r.n (0, 4)];
      string text, ref;
      bool inside = false;
      const int n = (int) r.n (0, 30);
      for (int i = 0; i < n; ++i)
        {
          string l;
          const string own = t.tags[r.n (0, (int) t.tags.size () - 1)];
          switch (r.n (0, 12))
            {
            case 0: l = "<" + own + ">"; break;
            case 1: l = "</" + own + ">"; break;
            case 2: l = string ("<") + names[r.n (0, 9)] + ">"; break;
            case 3: l = string ("</") + names[r.n (0, 9)] + ">"; break;
            case 4: l = ""; break;
            case 5: l = " <" + own + ">"; break;
            case 6: l = "</" + own + "> "; break;
            case 7: l = "<" + own; break;
            case 8: l = (r.n (0, 1) ? "</" : "<") + own + ">" + string (" text<\r\tx").substr (r.n (0, 7)); break;
            case 9: l = string (" text<\r\tx").substr (r.n (0, 7)) + (r.n (0, 1) ? "</" : "<") + own + ">"; break;
            case 10: l = (r.n (0, 1) ? "</" : "<") + own + (r.n (0, 1) ? " >" : ""); if (r.n (0, 1)) l[r.n (1, 2)] -= 32; break;
            default: for (int k = (int) r.n (1, 20); k > 0; --k) l += "abc <>/%\t01."[r.n (0, 11)];
            }
          bool opening = false, closing = false;
          for (auto &x : t.tags) { opening = opening or l == "<" + x + ">"; closing = closing or l == "</" + x + ">"; }
          if (inside and closing) inside = false;
          else if (inside) ref += l + "\n";
          else if (opening) inside = true;
          text += l;
          if (i + 1 < n or r.n (0, 1)) text += "\n";
          else if (l.empty () and inside) { if (ref.size () and ref.back () == '\n') ref.pop_back (); }
        }
      string flat = text;
      for (char &c : flat) if (c == '\n') c = '|';
      orc::begin ("%s on %.500s", t.name, flat.c_str ());
      std::istringstream is (text);
      std::ostringstream os;
      std::cin.clear ();
      std::streambuf *i0 = std::cin.rdbuf (is.rdbuf ()), *o0 = std::cout.rdbuf (os.rdbuf ());
      const int rc = t.f ();
      std::cin.rdbuf (i0);
      std::cout.rdbuf (o0);
      string got = os.str ();
      if (rc != 0) orc::witness ("exit code %d", rc);
      if (got != ref)
        {
          for (char &c : got) if (c == '\n') c = '|';
          for (char &c : ref) if (c == '\n') c = '|';
          orc::witness ("wrote '%.200s', expected '%.200s'", got.c_str (), ref.c_str ());
        }
    }
  while (orc::more ());
}
