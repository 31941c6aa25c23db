// C08: strategy parameters after arbitrary sequences of configuration calls
#include "oracle.h"
#include "optimizer.h"
#include "core/optimizer.cxx"
#include "core/decompose.cxx"
using namespace especia;
typedef Optimizer::Builder Builder;

struct Model
{
  natural n = 10, mu = 20, lambda = 40, modulus = 1, stop = 1000;
  double goal = 1e-6;
  word64 seed = 271828;
};

static void
compare (const Builder &b, const Model &m, bool seed_known)
{
  if (b.get_problem_dimension () != m.n)
    orc::witness ("problem dimension is %u, expected %u", b.get_problem_dimension (), m.n);
  if (b.get_parent_number () != m.mu)
    orc::witness ("parent number is %u, expected %u", b.get_parent_number (), m.mu);
  if (b.get_population_size () != m.lambda)
    orc::witness ("population size is %u, expected %u", b.get_population_size (), m.lambda);
  if (b.get_covariance_update_modulus () != m.modulus)
    orc::witness ("update modulus is %u, expected %u", b.get_covariance_update_modulus (), m.modulus);
  if (b.get_stop_generation () != m.stop)
    orc::witness ("stop generation is %u, expected %u", b.get_stop_generation (), m.stop);
  if (b.get_accuracy_goal () != m.goal)
    orc::witness ("accuracy goal is %g, expected %g", b.get_accuracy_goal (), m.goal);
  if (seed_known && b.get_random_seed () != m.seed)
    orc::witness ("random seed is %llu, expected %llu", (unsigned long long) b.get_random_seed (), (unsigned long long) m.seed);
  const std::valarray<real> &w = b.get_weights ();
  if (w.size () != m.mu)
    orc::witness ("%zu weights for %u parents", w.size (), m.mu);
  long double s1 = 0, s2 = 0, n = m.n;
  for (natural i = 0; i < m.mu; i++)
    {
      const long double x = std::log ((m.mu + 0.5L) / (i + 1));
      orc::expect (w[i], x, "weight", 1e-11, 1e-14);
      s1 += x, s2 += x * x;
    }
  const long double wv = s1 * s1 / s2;
  const long double cs = (wv + 2) / (wv + n + 5), cc = (4 + wv / n) / (n + 4 + 2 * wv / n), acov = 2 / ((n + 1.3L) * (n + 1.3L) + wv);
  const long double ccov = std::min (1 - acov, 2 * (wv - 2 + 1 / wv) / ((n + 2) * (n + 2) + wv));
  const long double damp = 1 + cs + 2 * std::max (0.0L, std::sqrt (std::max (0.0L, (wv - 1) / (n + 1))) - 1);
  orc::expect (b.get_step_size_cumulation_rate (), cs, "step size cumulation rate", 1e-10);
  orc::expect (b.get_distribution_cumulation_rate (), cc, "distribution cumulation rate", 1e-10);
  orc::expect (b.get_rank_m_covariance_matrix_adaption_rate (), acov, "covariance adaption rate (1)", 1e-10);
  orc::expect (b.get_rank_1_covariance_matrix_adaption_rate (), ccov, "covariance adaption rate (2)", 1e-9, 1e-13);
  if (wv > 1.0001L) // for one parent the square root of zero is decided by rounding
    orc::expect (b.get_step_size_damping (), damp, "step size damping", 1e-9);
}

void
check (orc::Rng &r)
{
  do
    {
      Builder b;
      Model m;
      std::string log = "Builder()";
      bool seed_known = false;
      orc::begin ("%s", log.c_str ());
      compare (b, m, false);
      const unsigned calls = r.n (1, 12);
      for (unsigned k = 0; k < calls; k++)
        {
          const natural v = r.n (0, 4) == 0 ? r.n (1, 300) : r.n (1, 30);
          switch (r.n (0, 9))
            {
            case 0:
            case 1:
              log += ".with_problem_dimension(" + std::to_string (v) + ")";
              orc::begin ("%s", log.c_str ());
              b.with_problem_dimension (v);
              m.n = v;
              break;
            case 2:
            case 3:
              log += ".with_parent_number(" + std::to_string (v) + ")";
              orc::begin ("%s", log.c_str ());
              b.with_parent_number (v);
              m.mu = v;
              m.lambda = 2 * v;
              break;
            case 4:
              {
                const natural p = r.n (0, 3) ? 2 * m.mu + r.n (0, 10) : v;
                log += ".with_population_size(" + std::to_string (p) + ")";
                orc::begin ("%s", log.c_str ());
                b.with_population_size (p);
                m.lambda = p;
                break;
              }
            case 5:
              log += ".with_covariance_update_modulus(" + std::to_string (v) + ")";
              orc::begin ("%s", log.c_str ());
              b.with_covariance_update_modulus (v);
              m.modulus = v;
              break;
            case 6:
              {
                const double g = v * 1e-7;
                log += ".with_accuracy_goal(" + std::to_string (g) + ")";
                orc::begin ("%s", log.c_str ());
                b.with_accuracy_goal (g);
                m.goal = g;
                break;
              }
            case 7:
              log += ".with_stop_generation(" + std::to_string (v) + ")";
              orc::begin ("%s", log.c_str ());
              b.with_stop_generation (v);
              m.stop = v;
              break;
            case 8:
              m.seed = r.next ();
              seed_known = true;
              log += ".with_random_seed(" + std::to_string (m.seed) + ")";
              orc::begin ("%s", log.c_str ());
              b.with_random_seed (m.seed);
              break;
            case 9:
              if (r.n (0, 5) == 0)
                {
                  log += ".with_defaults()";
                  orc::begin ("%s", log.c_str ());
                  b.with_defaults ();
                  m = Model ();
                  seed_known = false;
                }
              else if (r.n (0, 2) == 0)
                {
                  log += ".with_parent_number(0)";
                  orc::begin ("%s", log.c_str ());
                  bool rejected = false;
                  try
                    {
                      b.with_parent_number (0);
                      b.build ();
                    }
                  catch (std::exception &)
                    {
                      rejected = true;
                    }
                  if (!rejected)
                    orc::witness ("a zero parent number is accepted");
                  log += " -> rejected";
                  if (b.get_parent_number () == 0)
                    b.with_parent_number (m.mu), m.lambda = 2 * m.mu;
                }
              break;
            }
          compare (b, m, seed_known);
        }
      // a configuration is accepted exactly if the population has twice the size of the parents
      bool rejected = false;
      orc::begin ("%s.build()", log.c_str ());
      if (m.n <= 60)
        {
          try
            {
              b.build ();
            }
          catch (std::invalid_argument &)
            {
              rejected = true;
            }
          if (rejected != (m.lambda < 2 * m.mu))
            orc::witness ("a population of %u with %u parents is %s", m.lambda, m.mu, rejected ? "rejected" : "accepted");
        }
    }
  while (orc::more ());
}
