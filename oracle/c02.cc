// C02: conversion of words to reals, and the polar method
#include "oracle.h"
#include <algorithm>
#ifndef PUBLIC_ONLY
#define private public
#endif
#include "random.h"
#include "deviates.h"
#undef private
using namespace especia;
typedef uint64_t W;

// x with f(x) == y for an affine bijection f over GF(2)
static W
solve (std::function<W (W)> f, unsigned w, W y, bool &ok)
{
  const W f0 = f (0);
  std::vector<W> row (w), aug (w, 0);
  // columns f(e_j) ^ f0; eliminate
  std::vector<W> col (w);
  for (unsigned j = 0; j < w; j++)
    col[j] = f (W (1) << j) ^ f0;
  y ^= f0;
  W x = 0;
  std::vector<std::pair<W, W> > basis; // (vector, combination)
  for (unsigned j = 0; j < w; j++)
    {
      W v = col[j], c = W (1) << j;
      for (auto &b : basis)
        if ((v ^ b.first) < v)
          v ^= b.first, c ^= b.second;
      if (v)
        basis.push_back ({ v, c });
    }
  std::sort (basis.begin (), basis.end (), [] (const std::pair<W, W> &a, const std::pair<W, W> &b) { return a.first > b.first; });
  for (auto &b : basis)
    if ((y ^ b.first) < y)
      y ^= b.first, x ^= b.second;
  ok = y == 0;
  return x;
}

template <class G>
static void
stream (const char *name, unsigned w, W seed, unsigned count)
{
  G a (seed), b (seed);
  orc::begin ("%s seed=%llu real deviates against words", name, (unsigned long long) seed);
  double lo = 0;
  std::vector<std::pair<W, double> > v;
  for (unsigned i = 0; i < count; i++)
    {
      const W x = a.rand ();
      const double r = b ();
      const double top = w > 53 ? 9007199254740991.0 : std::ldexp (1.0, w) - 1;
      const double want = double (w > 53 ? x >> (w - 53) : x) / top;
      if (!(std::fabs (r - want) <= 4e-16 * want))
        orc::witness ("deviate %u from word %llu: got %.17g, expected %.17g", i, (unsigned long long) x, r, want);
      if (!(r >= 0 && r <= 1))
        orc::witness ("deviate %u is %.17g", i, r);
      v.push_back ({ x, r });
    }
  std::sort (v.begin (), v.end ());
  for (size_t i = 1; i < v.size (); i++)
    if (v[i].second < v[i - 1].second)
      orc::witness ("larger word %llu gives a smaller deviate", (unsigned long long) v[i].first);
}

template <class G>
static void
extreme (const char *name, unsigned w, std::function<void (G &, W)> set, orc::Rng &r)
{
  const W all = w == 64 ? ~W (0) : (W (1) << w) - 1;
  const G proto (r.next ());
  auto word = [&] (W x) { G g (proto); set (g, x); return W (g.rand ()); };
  for (W want : { W (0), W (1), W (0x7FF), W (0x800), all >> 1, (all >> 1) + 1, all - 1, all ^ 0x7FF, all ^ 0x800, all, W (r.next () & all), W (r.next () & all) })
    {
      bool ok;
      const W x = solve (word, w, want, ok);
      if (!ok || word (x) != want)
        return; // not an affine bijection; covered by C01
      G g (proto);
      set (g, x);
      orc::begin ("%s word=%llu", name, (unsigned long long) want);
      const double d = g ();
      const double top = w > 53 ? 9007199254740991.0 : std::ldexp (1.0, w) - 1;
      const double e = double (w > 53 ? want >> (w - 53) : want) / top;
      if (!(std::fabs (d - e) <= 4e-16 * e) || d > 1 || d < 0)
        orc::witness ("real deviate is %.17g, expected %.17g", d, e);
      if (want == all && d != 1.0)
        orc::witness ("the largest word gives %.17g", d);
    }
}

#ifndef PUBLIC_ONLY
static void
pcg (orc::Rng &r)
{
  for (unsigned k = 0; k < 64; k++)
    {
      // state such that the output is all ones (k even) or zero (k odd)
      W s = (W) (k / 2) << 59;
      for (int i = 58; i >= 27; i--)
        {
          const W up = i + 18 < 64 ? (s >> (i + 18)) & 1 : 0;
          s |= W ((k % 2 == 0) ^ up) << i;
        }
      s |= r.next () & ((1ULL << 27) - 1);
      Pcg_32 g (1, 1), h (1, 1);
      const_cast<word64 &> (g.state) = s;
      const_cast<word64 &> (h.state) = s;
      orc::begin ("Pcg_32 state=%llu", (unsigned long long) s);
      const word32 x = h.rand ();
      const double d = g ();
      orc::expect (d, x / 4294967295.0, "real deviate", 1e-15);
      if (d > 1 || (x == 0xFFFFFFFFu && d != 1.0))
        orc::witness ("word %u gives %.17g", x, d);
    }
}

#endif
struct Script
{
  const std::vector<double> *v;
  mutable size_t i = 0;
  Script (word64) : v (0) {}
  Script (const std::vector<double> *v) : v (v) {}
  double
  operator() () const
  {
    if (i >= v->size ())
      throw std::runtime_error ("exhausted");
    return (*v)[i++];
  }
};

static void
polar (orc::Rng &r)
{
  std::vector<double> u;
  const unsigned pairs = 3 + r.n (0, 60);
  std::vector<double> want;
  for (unsigned k = 0; k < pairs; k++)
    {
      double a = r.u (), b = r.u ();
      switch (r.n (0, 9))
        {
        case 0: a = b = 0.5; break;
        case 1: a = 0, b = 0.5; break;
        case 2: a = 1, b = 0.5; break;
        case 3: a = b = 1; break;
        case 4: a = 0.5 + 1e-9 * r.u (), b = 0.5; break;
        case 5: a = b = 0; break;
        }
      u.push_back (a);
      u.push_back (b);
    }
  u.push_back (0.3);
  u.push_back (0.6);
  for (size_t k = 0; k + 1 < u.size (); k += 2)
    {
      const double x = 2 * u[k] - 1, y = 2 * u[k + 1] - 1, t = x * x + y * y;
      if (t < 1 && t > 0)
        {
          const double f = std::sqrt (-2 * std::log (t) / t);
          want.push_back (x * f);
          want.push_back (y * f);
        }
    }
  Script s (&u);
  Normal_Deviate<Script> g (s);
  std::string txt;
  for (double x : u)
    txt += std::to_string (x) + " ";
  orc::begin ("normal deviates from uniform deviates %s", txt.substr (0, 2000).c_str ());
  for (size_t k = 0; k < want.size (); k++)
    {
      const double x = g ();
      if (!(std::fabs (x - want[k]) <= 1e-11 * std::fabs (want[k]) + 1e-300))
        orc::witness ("normal deviate %zu: got %.17g, expected %.17g", k, x, want[k]);
    }
}

template <class N, class U>
static void
seeded (const char *name, W seed)
{
  orc::begin ("%s seed=%llu normal deviates", name, (unsigned long long) seed);
  N n (seed);
  U u (seed);
  for (unsigned k = 0; k < 300; k += 2)
    {
      double x, y, t;
      do
        x = 2 * u () - 1, y = 2 * u () - 1, t = x * x + y * y;
      while (t >= 1 || t == 0);
      const double f = std::sqrt (-2 * std::log (t) / t);
      orc::expect (n (), x * f, "first of pair", 1e-11, 1e-300);
      orc::expect (n (), y * f, "second of pair", 1e-11, 1e-300);
    }
}

void
check (orc::Rng &r)
{
  do
    {
      const W seed = r.n (0, 3) ? r.next () : r.n (0, 5);
      stream<Mt11213a_32> ("Mt11213a_32", 32, seed, 1000);
      stream<Mt11213b_32> ("Mt11213b_32", 32, seed, 1000);
      stream<Mt19937_32> ("Mt19937_32", 32, seed, 1000);
      stream<Mt19937_64> ("Mt19937_64", 64, seed, 1000);
      stream<Melg19937_64> ("Melg19937_64", 64, seed, 1000);
      {
        Pcg_32 a (seed), b (seed);
        orc::begin ("Pcg_32 seed=%llu", (unsigned long long) seed);
        for (int i = 0; i < 1000; i++)
          orc::expect (b (), a.rand () / 4294967295.0, "real deviate", 1e-15);
      }
#ifndef PUBLIC_ONLY
      extreme<Mt11213a_32> ("Mt11213a_32", 32, [] (Mt11213a_32 &g, W x) { g.index = 0; const_cast<std::valarray<word64> &> (g.state)[0] = x; }, r);
      extreme<Mt11213b_32> ("Mt11213b_32", 32, [] (Mt11213b_32 &g, W x) { g.index = 0; const_cast<std::valarray<word64> &> (g.state)[0] = x; }, r);
      extreme<Mt19937_32> ("Mt19937_32", 32, [] (Mt19937_32 &g, W x) { g.index = 0; const_cast<std::valarray<word64> &> (g.state)[0] = x; }, r);
      extreme<Mt19937_64> ("Mt19937_64", 64, [] (Mt19937_64 &g, W x) { g.index = 0; const_cast<std::valarray<word64> &> (g.state)[0] = x; }, r);
      extreme<Melg19937_64> ("Melg19937_64", 64, [] (Melg19937_64 &g, W x) { const_cast<std::valarray<word64> &> (g.state)[311] = x; }, r);
      pcg (r);
#endif
      for (int i = 0; i < 200; i++)
        polar (r);
      seeded<Normal_Deviate<Mt19937_64>, Mt19937_64> ("Normal_Deviate<Mt19937_64>", seed);
      seeded<Normal_Deviate<Melg19937_64>, Melg19937_64> ("Normal_Deviate<Melg19937_64>", seed);
    }
  while (orc::more ());
}
