// Replay and bounded validation harness: runs the real code of /repo against an
// independent reference and prints a witness when they disagree.
#ifndef ORACLE_H
#define ORACLE_H
#include <memory>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <valarray>
#include <vector>

namespace orc
{
static char current[65536] = "(start)";
static unsigned long cases = 0;
static std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now ();
static double budget = 10;
static unsigned long seed = 1;

struct Rng // splitmix64, independent of the code under test
{
  uint64_t s;
  explicit Rng (uint64_t s) : s (s) {}
  uint64_t
  next ()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  double u () { return (next () >> 11) * (1.0 / 9007199254740992.0); }
  double u (double a, double b) { return a + (b - a) * u (); }
  unsigned n (unsigned a, unsigned b) { return a + next () % (b - a + 1); }
  double normal () { return std::sqrt (-2 * std::log (1 - u ())) * std::cos (6.283185307179586 * u ()); }
};

static void
finish (int rc)
{
  printf ("CASES %lu\n", cases);
  fflush (stdout);
  _exit (rc);
}

static void
handler (int sig)
{
  printf ("WITNESS %s: signal %d (%s)\n", current, sig, sig == SIGALRM ? "no termination" : strsignal (sig));
  finish (1);
}

static void
on_terminate ()
{
  printf ("WITNESS %s: std::terminate called\n", current);
  finish (1);
}

template <class... A>
static void
begin (const char *fmt, A... a)
{
  snprintf (current, sizeof current, fmt, a...);
  cases++;
  if (cases % 256 == 1)
    alarm (120);
}

template <class... A>
static void
witness (const char *fmt, A... a)
{
  printf ("WITNESS %s: ", current);
  printf (fmt, a...);
  printf ("\n");
  finish (1);
}

static bool
more ()
{
  return std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count () < budget;
}

static bool
close (double a, double b, double rel = 1e-9, double abs = 0)
{
  if (std::isnan (a) || std::isnan (b))
    return std::isnan (a) && std::isnan (b);
  if (std::isinf (a) || std::isinf (b))
    return a == b;
  return std::fabs (a - b) <= abs + rel * std::max (std::fabs (a), std::fabs (b));
}

template <class T>
static void
expect (double got, double want, T what, double rel = 1e-9, double abs = 0)
{
  if (!close (got, want, rel, abs))
    witness ("%s: got %.17g, expected %.17g", what, got, want);
}

static void
init (int argc, char **argv)
{
  if (argc > 1)
    seed = strtoul (argv[1], 0, 10);
  if (argc > 2)
    budget = atof (argv[2]);
  for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM })
    signal (s, handler);
  std::set_terminate (on_terminate);
}
} // namespace orc

void check (orc::Rng &r);

int
main (int argc, char **argv)
{
  orc::init (argc, argv);
  orc::Rng r (orc::seed * 7919 + 17);
  try
    {
      check (r);
    }
  catch (std::exception &e)
    {
      orc::witness ("unexpected exception: %s", e.what ());
    }
  orc::finish (0);
}
#endif
