// C16: adaptive quadrature against an independent implementation without value reuse
#include "oracle.h"
#include <map>
#include "integrator.h"
using namespace especia;
typedef Integrator<real> I;
// abscissas and weights of Favati, Lotti and Romani (1991)
static const long double X[] = { 0.0000000L, 0.2500000L, 0.5000000L, 0.7500000L, 0.8750000L, 0.9375000L, 1.0000000L, 0.3750000L, 0.6250000L, 0.9687500L, 0.1250000L, 0.6875000L, 0.8125000L, 0.9843750L, 0.1875000L, 0.3125000L, 0.4375000L, 0.5625000L, 0.8437500L, 0.9062500L, 0.9921875L };
static const long double W[] = { 1.303262173284849021810473057638590518409112513421E-01L, 2.390632866847646220320329836544615917290026806242E-01L, 2.630626354774670227333506083741355715758124943143E-01L, 2.186819313830574175167853094864355208948886875898E-01L, 2.757897646642836865859601197607471574336674206700E-02L, 1.055750100538458443365034879086669791305550493830E-01L, 1.571194260595182254168429283636656908546309467968E-02L, 1.298751627936015783241173611320651866834051160074E-01L, 2.249996826462523640447834514709508786970828213187E-01L, 1.680415725925575286319046726692683040162290325505E-01L, 1.415567675701225879892811622832845252125600939627E-01L, 1.006482260551160175038684459742336605269707889822E-01L, 2.510604860724282479058338820428989444699235030871E-02L, 9.402964360009747110031098328922608224934320397592E-03L, 5.542699233295875168406783695143646338274805359780E-02L, 9.986735247403367525720377847755415293097913496236E-02L, 4.507523056810492466415880450799432587809828791196E-02L, 6.300942249647773931746170540321811473310938661469E-02L, 1.261383225537664703012999637242003647020326905948E-01L, 1.273864433581028272878709981850307363453523117880E-01L, 8.576500414311820514214087864326799153427368592787E-02L, 7.102884842310253397447305465997026228407227220665E-02L, 5.026383572857942403759829860675892897279675661654E-02L, 4.683670010609093810432609684738393586390722052124E-03L, 1.235837891364555000245004813294817451524633100256E-01L, 1.148933497158144016800199601785309838604146040215E-01L, 1.252575774226122633391477702593585307254527198070E-02L, 1.239572396231834242194189674243818619042280816640E-01L, 2.501306413750310579525950767549691151739047969345E-02L, 4.915957918146130094258849161350510503556792927578E-02L, 2.259167374956474713302030584548274729936249753832E-02L, 6.362762978782724559269342300509058175967124446839E-02L, 9.950065827346794643193261975720606296171462239514E-02L, 7.048220002718565366098742295389607994441704889441E-02L, 6.512297339398335645872697307762912795346716454337E-02L, 3.998229150313659724790527138690215186863915308702E-02L, 3.456512257080287509832054272964315588028252136044E-02L, 2.212167975884114432760321569298651047876071264944E-03L, 8.140326425945938045967829319725797511040878579808E-02L, 6.583213447600552906273539578430361199084485578379E-02L, 2.592913726450792546064232192976262988065252032902E-02L, 1.187141856692283347609436153545356484256869129472E-01L, 5.999947605385971985589674757013565610751028128731E-02L, 5.500937980198041736910257988346101839062581489820E-02L, 5.264422421764655969760271538981443718440340270116E-03L, 1.533126874056586959338368742803997744815413565014E-02L, 3.527159369750123100455704702965541866345781113903E-02L, 5.000556431653955124212795201196389006184693561679E-02L, 5.744164831179720106340717579281831675999717767532E-02L, 1.598823797283813438301248206397233634639162043386E-02L, 2.635660410220884993472478832884065450876913559421E-02L, 1.196003937945541091670106760660561117114584656319E-02L };
static const int MW[] = { 0, 7, 17, 31 }, NW[] = { 7, 10, 14, 21 }, DEG[] = { 13, 19, 27, 41 };
static const I::Formula Q[] = { I::Q13, I::Q19, I::Q27, I::Q41 };

struct Fn
{
  int kind;
  double s, w, k;
  mutable double lo = INFINITY, hi = -INFINITY;
  mutable long calls = 0;
  double
  value (double x) const
  {
    switch (kind)
      {
      case 0: return std::exp (-(x - s) * (x - s) / (w * w)) + k * x;
      case 1: return 1 / (w * w + (x - s) * (x - s));
      case 2: return std::fabs (x - s) + k * std::exp (-std::fabs (x) / 50);
      case 3: return x > s ? 1 + k * std::cos (x) : std::sin (k * x);
      case 4: return std::sin (x / w) * std::exp (-x * x / 100) + 0.3 * x;
      default: return std::sqrt (std::fabs (x - s)) * std::cos (k * x);
      }
  }
  double
  operator() (double x) const
  {
    lo = std::min (lo, x), hi = std::max (hi, x), ++calls;
    return value (x);
  }
};

template <class F>
static long double
rule (const F &f, int k, double a, double b)
{
  const long double c = ((long double)a + b) / 2, h = ((long double)b - a) / 2;
  long double r = 0;
  for (int i = 0; i < NW[k]; i++)
    r += ((long double)f (c - X[i] * h) + f (c + X[i] * h)) * W[MW[k] + i];
  return r * h;
}

struct Part
{
  double a, b;
  long double e, v;
};

// returns false if the choice of parts is ambiguous within rounding
template <class F>
static bool
reference (const F &f, int p, int q, double a, double b, double goal, unsigned m, long double &res, long double &mag)
{
  std::vector<Part> ps;
  auto add = [&] (double a, double b) {
    const long double v = rule (f, q, a, b);
    ps.push_back ({ a, b, fabsl (v - rule (f, p, a, b)), v });
  };
  add (a, b);
  for (unsigned i = 0;; i++)
    {
      long double s = 0;
      res = mag = 0;
      for (auto &x : ps)
        s += x.e, res += x.v, mag += fabsl (x.v);
      if (i >= m)
        break;
      if (fabsl (s - goal) < 1e-9L * (fabsl (goal) + mag * 1e-3L))
        return false;
      if (s < goal)
        break;
      size_t j = 0;
      for (size_t t = 1; t < ps.size (); t++)
        if (ps[t].e > ps[j].e)
          j = t;
      for (size_t t = 0; t < ps.size (); t++)
        if (t != j && ps[j].e - ps[t].e < 1e-12L * mag)
          return false;
      const Part x = ps[j];
      ps.erase (ps.begin () + j);
      const double c = 0.5 * (x.a + x.b);
      add (x.a, c), add (c, x.b);
    }
  return true;
}

static void
poly (orc::Rng &r)
{
  int p = r.n (0, 3), q = r.n (0, 3);
  if (p == q)
    return;
  const double a = r.u (-2, 2), b = r.n (0, 9) ? r.u (-2, 2) : a + 1e-3;
  const int d = r.n (0, std::min (DEG[p], DEG[q]));
  std::vector<double> c (d + 1);
  for (auto &x : c)
    x = r.u (-1, 1);
  auto f = [&] (double x) {
    double s = 0, t = (x - a) / (b - a) * 2 - 1;
    for (int i = d; i >= 0; i--)
      s = s * t + c[i];
    return s;
  };
  long double want = 0;
  for (int i = 0; i <= d; i += 2)
    want += c[i] * 2.0L / (i + 1);
  want *= ((long double)b - a) / 2;
  const unsigned m = r.n (0, 12);
  orc::begin ("polynomial of degree %d on [%.17g, %.17g], formulas %d %d, %u refinements", d, a, b, DEG[p], DEG[q], m);
  const double got = I (Q[p], Q[q]).integrate (f, a, b, -1.0, m);
  if (!(std::fabs (got - want) <= 1e-12 * std::fabs (b - a) * (d + 1)))
    orc::witness ("integral %.17g instead of %.17Lg", got, want);
}

static Fn
make (orc::Rng &r)
{
  Fn f;
  f.kind = r.n (0, 5), f.s = r.u (-3, 5), f.w = std::pow (10.0, r.u (-1.5, 0.5)), f.k = r.u (-2, 2);
  return f;
}

static void
adaptive (orc::Rng &r)
{
  const int p = r.n (0, 3), q = r.n (0, 3);
  if (p == q)
    return;
  const Fn f = make (r);
  const double a = r.u (-6, 0), b = a + r.u (0.5, 12), goal = std::pow (10.0, r.u (-6, 0));
  const unsigned m = r.n (0, 60);
  orc::begin ("function %d (s=%.17g w=%.17g k=%.17g) on [%.17g, %.17g], formulas %d %d, goal %.17g, at most %u iterations", f.kind, f.s, f.w, f.k, a, b, DEG[p], DEG[q], goal, m);
  const double got = I (Q[p], Q[q]).integrate (f, a, b, goal, m);
  if (f.lo < a - 1e-12 || f.hi > b + 1e-12)
    orc::witness ("the integrand is evaluated outside of the interval: %.17g ... %.17g", f.lo, f.hi);
  long double want, mag;
  if (reference (f, p, q, a, b, goal, m, want, mag) && f.kind != 3 && !(std::fabs (got - want) <= 1e-11 * (1 + mag)))
    orc::witness ("integral %.17g instead of %.17Lg", got, want);
  if (f.kind == 3 && reference (f, p, q, a, b, goal, m, want, mag) && !(std::fabs (got - want) <= 1e-9 * (1 + mag)))
    {
      // an abscissa may coincide with the step
      const double eps = 1e-12;
      Fn g = f;
      g.s += eps;
      long double w2, m2;
      if (reference (g, p, q, a, b, goal, m, w2, m2) && !(std::fabs (got - w2) <= 1e-9 * (1 + mag)))
        orc::witness ("integral %.17g instead of %.17Lg", got, want);
    }
}

static void
infinite (orc::Rng &r)
{
  const int p = r.n (0, 3), q = r.n (0, 3);
  if (p == q)
    return;
  const double s = r.u (-2, 3), w = r.u (0.5, 2), k = r.u (-1, 1);
  auto f = [&] (double x) { return std::exp (-(x - s) * (x - s) / (w * w)) * (1 + k * x); };
  auto tp = [&] (double u) { return u > 0 ? f (-std::log (u)) / u : 0.0; };
  auto tn = [&] (double u) { return u > 0 ? f (std::log (u)) / u : 0.0; };
  const double goal = std::pow (10.0, r.u (-7, -1));
  const unsigned m = r.n (0, 60);
  orc::begin ("exp(-(x-s)^2/w^2)(1+kx) s=%.17g w=%.17g k=%.17g, formulas %d %d, goal %.17g, at most %u iterations", s, w, k, DEG[p], DEG[q], goal, m);
  I i (Q[p], Q[q]);
  long double pos, neg, m1, m2;
  const bool op = reference (tp, p, q, 0, 1, goal, m, pos, m1), on = reference (tn, p, q, 0, 1, goal, m, neg, m2);
  const double gp = i.integrate_positive_infinite (f, goal, m), gn = i.integrate_negative_infinite (f, goal, m), gi = i.integrate_infinite (f, goal, m);
  if (op && !(std::fabs (gp - pos) <= 1e-10 * (1 + m1)))
    orc::witness ("positive infinite integral %.17g instead of %.17Lg", gp, pos);
  if (on && !(std::fabs (gn - neg) <= 1e-10 * (1 + m2)))
    orc::witness ("negative infinite integral %.17g instead of %.17Lg", gn, neg);
  if (!(std::fabs (gi - (gp + gn)) <= 1e-13 * (std::fabs (gp) + std::fabs (gn))))
    orc::witness ("infinite integral %.17g instead of %.17g", gi, gp + gn);
}

static void
defaults ()
{
  auto f = [] (double x) { return 1 / (0.01 + (x - 0.3) * (x - 0.3)); };
  long double w, m;
  orc::begin ("default formulas, goal and limit");
  if (reference (f, 1, 2, -1, 2, 1e-6, 100, w, m) && !(std::fabs (I ().integrate (f, -1, 2) - w) <= 1e-12 * m))
    orc::witness ("integral %.17g instead of %.17Lg", I ().integrate (f, -1, 2), w);
}

void
check (orc::Rng &r)
{
  defaults ();
  do
    poly (r), adaptive (r), infinite (r);
  while (orc::more ());
}
