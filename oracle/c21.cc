// Random command lines through Runner::run with a scripted model, compared with the optimiser set up directly; exit codes of the programs.
#include "oracle.h"
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <valarray>
#include "core/decompose.cxx"
#include "core/optimizer.cxx"
#include "core/section.cxx"
#include "core/readline.cxx"
#include "core/profiles.cxx"
#include "core/model.h"
#include "core/runner.cxx"
#define main tool_main
namespace azafran {
#include "apps/azafran.cxx"
}
namespace curcuma {
#include "apps/curcuma.cxx"
}
namespace mascada {
#include "apps/mascada.cxx"
}
namespace oregano {
#include "apps/oregano.cxx"
}
#undef main
using namespace especia;
using std::string;
using std::vector;

struct Script
{
  int dim, shape;
  bool bad_model;
  std::valarray<real> x0, z0;
  std::valarray<real> got_x, got_u;
  int parsed, set, put;
};
static Script script;

struct Fake
{
  static Fake parse (std::istream &is, std::ostream &os)
  {
    ++script.parsed;
    if (&is != &std::cin or &os != &std::cout) orc::witness ("the model is not read from standard input");
    if (script.bad_model) throw std::runtime_error ("bad model");
    return Fake ();
  }
  natural get_parameter_count () const { return script.dim; }
  std::valarray<real> get_initial_parameter_values () const { return script.x0; }
  std::valarray<real> get_initial_local_step_sizes () const { return script.z0; }
  No_Constraint<> get_constraint () const { return No_Constraint<> (); }
  real operator() (const real x[], natural n) const
  {
    real y = 0;
    for (natural i = 0; i < n; ++i)
      y += script.shape == 0 ? (1.0 + i) * (x[i] - 0.3) * (x[i] - 0.3) : script.shape == 1 ? -x[i] : std::abs (x[i]);
    return y;
  }
  void set (const real x[], const real u[])
  {
    ++script.set;
    script.got_x = std::valarray<real> (x, script.dim);
    script.got_u = std::valarray<real> (u, script.dim);
  }
  std::ostream &put (std::ostream &os) const { ++script.put; return os << "<model put>\n"; }
};

struct Counting
{
  natural m;
  mutable int lines = 0;
  bool is_tracing (natural g) const { return m > 0 and g % m == 0; }
  void trace (natural, real, real, real) const { ++count (); }
  static int &count () { static int n; return n; }
};

struct Capture
{
  std::istringstream in;
  std::ostringstream out, err;
  std::streambuf *i, *o, *e;
  Capture (const string &text = "") : in (text), i (std::cin.rdbuf (in.rdbuf ())), o (std::cout.rdbuf (out.rdbuf ())), e (std::cerr.rdbuf (err.rdbuf ())) { std::cin.clear (); }
  ~Capture () { std::cin.rdbuf (i); std::cout.rdbuf (o); std::cerr.rdbuf (e); }
};

static string num (const char *f, double x) { char b[64]; snprintf (b, sizeof b, f, x); return b; }

static void programs (orc::Rng &r)
{
  typedef int (*Main) (int, char **);
  static const Main mains[] = {azafran::tool_main, curcuma::tool_main, mascada::tool_main, oregano::tool_main};
  static const char *names[] = {"azafran", "curcuma", "mascada", "oregano"};
  const int p = (int) r.n (0, 3), mode = (int) r.n (0, 4);
  vector<string> a = {names[p], "42", "2", "8", "0.5", "1e-3", "10", "0"};
  int expect = 16;
  string text;
  if (mode == 0) { a.resize (1); expect = 0; }
  else if (mode == 1) { a.resize (r.n (2, 7)); expect = 8; }
  else if (mode == 2) { a.push_back ("1"); expect = 8; }
  else if (mode == 3) { a[r.n (1, 7)] = "x"; expect = 8; }
  else text = r.n (0, 1) ? "" : "{ a no_such_file_of_data 1 2 0\n 1 1 1 0\n}\n";
  vector<char *> argv;
  for (auto &s : a) argv.push_back (&s[0]);
  argv.push_back (nullptr);
  orc::begin ("program %s, %zu arguments, mode %d", names[p], a.size (), mode);
  int rc;
  { Capture c (text); rc = mains[p] ((int) a.size (), argv.data ()); }
  if (rc != expect) orc::witness ("exit code %d, expected %d", rc, expect);
}

static void runs (orc::Rng &r)
{
  static const char *bad[] = {"x", "", "abc", ".", "-"};
  script = Script ();
  script.dim = (int) r.n (1, 3);
  script.shape = (int) r.n (0, 2);
  script.bad_model = r.n (0, 9) == 0;
  script.x0.resize (script.dim);
  script.z0.resize (script.dim);
  for (int i = 0; i < script.dim; ++i) { script.x0[i] = r.u (-1, 1); script.z0[i] = r.u (0.1, 1); }
  const word64 seed = r.n (0, 1) ? r.n (0, 100000) : 4294967296ull + r.n (0, 1000);
  const natural parents = (natural) r.n (r.n (0, 9) ? 1 : 0, 4), population = (natural) r.n (r.n (0, 5) ? 2 * parents : 1, 12);
  const string step = num ("%.3f", r.n (0, 7) ? r.u (0.1, 2) : 0), acc = num ("%.1e", r.n (0, 2) ? r.u (1e-6, 1e-2) : 1e-300);
  const natural stop = (natural) (r.n (0, 5) ? r.n (0, 30) : r.n (0, 200)), trace = (natural) r.n (0, 7);
  const int count = r.n (0, 5) ? 7 : (int) r.n (0, 9);
  vector<string> a = {r.n (0, 1) ? "curcuma" : "./a b", std::to_string (seed), std::to_string (parents), std::to_string (population), step, acc, std::to_string (stop), std::to_string (trace)};
  bool readable = true;
  if (r.n (0, 7) == 0) { a[r.n (1, 7)] = bad[r.n (0, 4)]; readable = false; }
  while ((int) a.size () < count + 1) a.push_back ("1");
  a.resize (count + 1);
  string all;
  for (auto &s : a) all += " " + s;
  vector<char *> argv;
  for (auto &s : a) argv.push_back (&s[0]);
  argv.push_back (nullptr);
  orc::begin ("arguments%s, dimension %d, function %d", all.c_str (), script.dim, script.shape);
  const bool valid = count == 7 and readable and parents > 0 and population >= 2 * parents;
  int rc = -1;
  string error, out;
  {
    Capture c;
    try
      {
        Runner runner ((int) a.size (), argv.data ());
        if (runner.get_arg_count () != a.size () or runner.get_args () != a or runner.get_program_name () != a[0]) error = "arguments changed";
        else rc = runner.run<Fake> ();
      }
    catch (std::invalid_argument &) { error = "invalid"; }
    catch (std::runtime_error &) { error = "runtime"; }
    catch (std::exception &) { error = "other"; }
    out = c.out.str ();
  }
  string want = count == 0 ? "" : count != 7 or not readable ? "invalid" : script.bad_model ? "runtime" : not valid ? "invalid" : "";
  if (error != want) orc::witness ("outcome is '%s', expected '%s'", error.c_str (), want.c_str ());
  if (count == 0)
    {
      if (rc != 0 or out.find ("usage: ") == string::npos) orc::witness ("no usage message or exit code %d", rc);
      return;
    }
  if (out.find ("usage: ") != string::npos) orc::witness ("usage message with %d arguments", count);
  if (count == 7)
    {
      const string head = "<!DOCTYPE html>\n<html>\n<!--\n<command>\n" + all + "\n</command>\n-->\n</html>\n";
      if (out.compare (0, head.size (), head) != 0) orc::witness ("the arguments are not echoed as given");
    }
  if (not want.empty ()) return;
  Counting counting{trace};
  Counting::count () = 0;
  const Optimizer opt = Optimizer::Builder ().with_problem_dimension (script.dim).with_parent_number (parents).with_population_size (population).with_accuracy_goal (atof (acc.c_str ())).with_stop_generation (stop).with_random_seed (seed).build ();
  const Optimizer::Result res = opt.minimize (Fake (), script.x0, script.z0, atof (step.c_str ()), No_Constraint<> (), counting);
  const int expect = res.is_optimized () ? 0 : res.is_underflow () ? 1 : 2;
  if (rc != expect) orc::witness ("exit code %d, expected %d", rc, expect);
  if (script.parsed != 1 or script.set != 1 or script.put != 1) orc::witness ("model parsed %d, set %d, put %d times", script.parsed, script.set, script.put);
  for (int i = 0; i < script.dim; ++i)
    {
      auto same = [] (real p, real q) { return p == q or (p != p and q != q); };
      if (not same (script.got_x[i], res.get_parameter_values ()[i])) orc::witness ("value %d is %.17g, expected %.17g", i, script.got_x[i], res.get_parameter_values ()[i]);
      if (not same (script.got_u[i], res.get_parameter_uncertainties ()[i])) orc::witness ("uncertainty %d is %.17g, expected %.17g", i, script.got_u[i], res.get_parameter_uncertainties ()[i]);
    }
  const size_t b = out.find ("<log>\n"), e = out.find ("</log>");
  if (b == string::npos or e == string::npos) orc::witness ("no log");
  int lines = 0;
  for (size_t i = b + 6; i < e; ++i) lines += out[i] == '\n';
  if (lines != Counting::count ()) orc::witness ("%d lines of log, expected %d", lines, Counting::count ());
}

void check (orc::Rng &r)
{
  do { runs (r); if (r.n (0, 3) == 0) programs (r); } while (orc::more ());
}
