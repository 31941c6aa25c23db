// C01: generator streams against independent reference implementations
#include "oracle.h"
#include "random.h"
using namespace especia;
typedef uint64_t W;

struct RefMT
{
  unsigned w, n, m, r, u, s, t, l;
  W a, d, b, c, f1, f2, f3;
  std::vector<W> x;
  size_t i = 0;
  W mask () const { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
  void
  seed (const std::vector<W> &key)
  {
    x.assign (n, 0);
    x[0] = 19650218;
    for (unsigned k = 1; k < n; k++)
      x[k] = (f1 * (x[k - 1] ^ (x[k - 1] >> (w - 2))) + k) & mask ();
    unsigned p = 1, j = 0;
    for (size_t k = std::max<size_t> (n, key.size ()); k; k--)
      {
        x[p] = ((x[p] ^ ((x[p - 1] ^ (x[p - 1] >> (w - 2))) * f2)) + key[j] + j) & mask ();
        p++, j++;
        if (p >= n)
          x[0] = x[n - 1], p = 1;
        if (j >= key.size ())
          j = 0;
      }
    for (unsigned k = n - 1; k; k--)
      {
        x[p] = ((x[p] ^ ((x[p - 1] ^ (x[p - 1] >> (w - 2))) * f3)) - p) & mask ();
        p++;
        if (p >= n)
          x[0] = x[n - 1], p = 1;
      }
    x[0] = 1ULL << (w - 1);
    i = 0;
  }
  W
  next ()
  {
    // x is a sliding window: produce one new word by the recurrence
    W lo = r == 64 ? ~0ULL : (1ULL << r) - 1;
    W y = (x[i % n] & mask () & ~lo) | (x[(i + 1) % n] & lo);
    W z = x[(i + m) % n] ^ (y >> 1) ^ ((y & 1) ? a : 0);
    x[i % n] = z;
    i++;
    z ^= (z >> u) & d;
    z ^= (z << s) & b;
    z ^= (z << t) & c;
    z ^= z >> l;
    return z;
  }
};

struct RefMelg
{
  W s[311], lung;
  int i;
  static W f (W x) { return x ^ (x >> 62); }
  void
  seed (const std::vector<W> &key)
  {
    s[0] = 19650218;
    for (int k = 1; k < 311; k++)
      s[k] = 6364136223846793005ULL * f (s[k - 1]) + k;
    lung = 6364136223846793005ULL * f (s[310]) + 311;
    int p = 1;
    size_t j = 0;
    for (size_t k = std::max<size_t> (311, key.size ()); k; k--)
      {
        s[p] = (s[p] ^ (f (s[p - 1]) * 3935559000370003845ULL)) + key[j] + j;
        p++, j++;
        if (p >= 311)
          s[0] = s[310], p = 1;
        if (j >= key.size ())
          j = 0;
      }
    for (int k = 310; k; k--)
      {
        s[p] = (s[p] ^ (f (s[p - 1]) * 2862933555777941757ULL)) - p;
        p++;
        if (p >= 311)
          s[0] = s[310], p = 1;
      }
    lung = (lung ^ (f (s[310]) * 2862933555777941757ULL)) - 311;
    s[0] |= 1ULL << 63;
    i = 0;
  }
  W
  next ()
  {
    W x = (s[i] & (~0ULL << 31)) | (s[(i + 1) % 311] & 0x7FFFFFFFULL);
    lung = (x >> 1) ^ ((x & 1) ? 0x5c32e06df730fc42ULL : 0) ^ s[(i + 81) % 311] ^ lung ^ (lung << 23);
    s[i] = x ^ lung ^ (lung >> 33);
    x = s[i] ^ (s[i] << 16) ^ (s[(i + 19) % 311] & 0x6aede6fd97b338ecULL);
    i = (i + 1) % 311;
    return x;
  }
};

struct RefPcg
{
  W state, inc;
  RefPcg (W seed, W seq) : state (0), inc ((seq << 1) | 1)
  {
    next ();
    state += seed;
    next ();
  }
  uint32_t
  next ()
  {
    W o = state;
    state = o * 6364136223846793005ULL + inc;
    uint32_t x = uint32_t (((o >> 18) ^ o) >> 27), r = uint32_t (o >> 59);
    return r ? (x >> r) | (x << (32 - r)) : x;
  }
};

template <class G, class R>
static void
stream (const char *name, const G &g, R &ref, unsigned count)
{
  for (unsigned k = 0; k < count; k++)
    {
      W got = g.rand (), want = ref.next ();
      if (got != want)
        orc::witness ("%s word %u: got %llu, expected %llu", name, k, (unsigned long long)got, (unsigned long long)want);
    }
}

template <class G, class R>
static void
both (const char *name, R ref, orc::Rng &r, unsigned round)
{
  static const W special[] = { 0, 1, 27182, 0xFFFFFFFFULL, 0x100000000ULL, ~0ULL, 9600629759793949339ULL };
  W sd = round < 7 ? special[round] : r.next ();
  unsigned count = round < 3 ? 4000 : 700;
  orc::begin ("%s seed %llu", name, (unsigned long long)sd);
  G g (sd);
  ref.seed ({ sd & 0xFFFFFFFFULL, sd & 0xFFFFFFFF00000000ULL });
  stream (name, g, ref, count);
  unsigned nk = round < 4 ? round + 1 : r.n (1, round % 5 == 0 ? 700 : 20);
  std::vector<W> key (nk);
  for (auto &k : key)
    k = r.next ();
  orc::begin ("%s %u keys, first %llu", name, nk, (unsigned long long)key[0]);
  G h (nk, key.data ());
  ref.seed (key);
  stream (name, h, ref, count);
}

void
check (orc::Rng &r)
{
  RefMT a { 32, 351, 175, 19, 11, 7, 15, 17, 0xE4BD75F5ULL, 0xFFFFFFFFULL, 0x655E5280ULL, 0xFFD58000ULL, 1812433253ULL, 1664525ULL, 1566083941ULL, {} };
  RefMT b { 32, 351, 175, 19, 11, 7, 15, 17, 0xCCAB8EE7ULL, 0xFFFFFFFFULL, 0x31B6AB00ULL, 0xFFE50000ULL, 1812433253ULL, 1664525ULL, 1566083941ULL, {} };
  RefMT c { 32, 624, 397, 31, 11, 7, 15, 18, 0x9908B0DFULL, 0xFFFFFFFFULL, 0x9D2C5680ULL, 0xEFC60000ULL, 1812433253ULL, 1664525ULL, 1566083941ULL, {} };
  RefMT d { 64, 312, 156, 31, 29, 17, 37, 43, 0xB5026F5AA96619E9ULL, 0x5555555555555555ULL, 0x71D67FFFEDA60000ULL, 0xFFF7EEE000000000ULL,
            6364136223846793005ULL, 3935559000370003845ULL, 2862933555777941757ULL, {} };
  for (unsigned round = 0; orc::more (); round++)
    {
      both<Mt11213a_32> ("Mt11213a_32", a, r, round);
      both<Mt11213b_32> ("Mt11213b_32", b, r, round);
      both<Mt19937_32> ("Mt19937_32", c, r, round);
      both<Mt19937_64> ("Mt19937_64", d, r, round);
      both<Melg19937_64> ("Melg19937_64", RefMelg (), r, round);
      W s = r.next (), q = r.next ();
      orc::begin ("Pcg_32 seed %llu selector %llu", (unsigned long long)s, (unsigned long long)q);
      Pcg_32 p (s, q);
      RefPcg ref (s, q);
      stream ("Pcg_32", p, ref, 2000);
    }
}
