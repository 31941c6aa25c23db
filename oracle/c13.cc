// C13: convolution with the line spread function
#include "oracle.h"
#include "section_ref.h"

void
check (orc::Rng &r)
{
  do
    {
      const int n = r.n (0, 4) ? r.n (3, 80) : r.n (3, 5);
      std::unique_ptr<Spectrum> s (spectrum (r, n));
      const double R = resolution (r, *s, n < 40 && r.n (0, 3) == 0 ? 0.005 : 0.05, 6);
      Tau t = lines (r, *s, R);
      orc::begin ("section with %d points from %.17g to %.17g, resolution %.17g", n, s->wav[0], s->wav[n - 1], R);
      Conv o;
      if (!convolution (s->wav, R, t, o))
        continue;
      s->sec.apply (0, R, t);
      std::vector<Vec> c = columns (s->sec);
      for (int i = 0; i < n; i++)
        {
          if (!orc::close (c[i][4], (double)o.opt[i], 1e-7, 1e-9))
            orc::witness ("optical depth %.9g at point %d, expected %.9g (supersampling %ld)", c[i][4], i, (double)o.opt[i], o.s);
          if (!orc::close (c[i][5], (double)o.atm[i], 1e-7, 1e-9))
            orc::witness ("absorption %.9g at point %d, expected %.9g (supersampling %ld)", c[i][5], i, (double)o.atm[i], o.s);
          if (!orc::close (c[i][6], (double)o.cat[i], 1e-7, 1e-8))
            orc::witness ("convoluted absorption %.9g at point %d, expected %.9g (supersampling %ld)", c[i][6], i, (double)o.cat[i], o.s);
        }
      Tau k;
      k.base = t.base;
      s->sec.apply (0, R, k);
      c = columns (s->sec);
      for (int i = 1; i < n; i++)
        if (!orc::close (c[i][6], c[0][6], 1e-7))
          orc::witness ("a constant convolves to %.9g at point 0 and %.9g at point %d", c[0][6], c[i][6], i);
      // the line spread function is normalised up to the truncation
      if (!orc::close (c[0][6], std::exp (-k.base), 0.02))
        orc::witness ("the constant %.9g convolves to %.9g", std::exp (-k.base), c[0][6]);
    }
  while (orc::more ());
}
