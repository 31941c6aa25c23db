// C11: cost, masks and counts of a section
#include "oracle.h"
#include "section_ref.h"

void
check (orc::Rng &r)
{
  do
    {
      const int n = r.n (0, 4) ? r.n (3, 60) : r.n (1, 4), m = r.n (0, 3);
      std::unique_ptr<Spectrum> s (spectrum (r, n));
      const double R = n > 1 ? resolution (r, *s) : 50;
      orc::begin ("section with %d points from %.17g to %.17g, resolution %.17g, %d polynomials", n, s->wav[0], s->wav[n - 1], R, m);
      for (int k = r.n (0, 3); k > 0; k--)
        {
          const int i = r.n (0, n - 1), j = r.n (0, 2) ? std::min (n - 1, i + (int)r.n (0, n / 4)) : r.n (0, n - 1);
          double a = s->wav[i], b = s->wav[j];
          if (r.n (0, 1))
            a = std::nextafter (a, r.n (0, 1) ? 0 : 1e9);
          if (r.n (0, 1))
            b = std::nextafter (b, r.n (0, 1) ? 0 : 1e9);
          hide (*s, a, b);
        }
      const size_t valid = std::count (s->msk.begin (), s->msk.end (), true);
      orc::expect (s->sec.valid_data_count (), valid, "number of valid points");
      orc::expect (s->sec.data_count (), n, "number of points");
      std::vector<Vec> c = columns (s->sec);
      if (c.size () != (size_t)n)
        orc::witness ("%zu points are written", c.size ());
      for (int i = 0; i < n; i++)
        if ((c[i][3] != 0) != s->msk[i])
          orc::witness ("the mask of point %d at %.17g is %g", i, s->wav[i], c[i][3]);
      if (n < 3 || valid < (size_t)m + 1)
        continue;
      const Tau t = lines (r, *s, R);
      Conv o;
      VecL f;
      if (!convolution (s->wav, R, t, o) || !continuum_ref (s->wav, s->flx, s->unc, s->msk, m, o.cat, f))
        continue;
      L cost = 0;
      for (int i = 0; i < n; i++)
        if (s->msk[i])
          {
            const L z = (s->flx[i] - f[i] * o.cat[i]) / s->unc[i];
            cost += z * z / 2;
          }
      const Section &k = s->sec;
      const double u = k.cost (t, R, m);
      orc::expect (u, (double)cost, "cost of the model", 1e-7, 1e-9);
      if (columns (k) != c)
        orc::witness ("evaluating the cost changes the section");
      Section &back = s->sec.apply (m, R, t);
      if (&back != &s->sec)
        orc::witness ("apply returns another section");
      orc::expect (k.cost (), u, "stored cost", 1e-12, 1e-13);
      orc::expect (k.cost (t, R, m), u, "cost after the model is applied", 1e-12, 1e-13);
      orc::expect (k.valid_data_count (), valid, "number of valid points after the model is applied");
      c = columns (k);
      for (int i = 0; i < n; i++)
        {
          orc::expect (c[i][8], (double)(f[i] * o.atm[i]), "transmitted flux", 1e-5, 1e-5);
          orc::expect (c[i][9], (double)(f[i] * o.cat[i]), "fitted flux", 1e-5, 1e-5);
          orc::expect (c[i][10], (double)((s->flx[i] - f[i] * o.cat[i]) / s->unc[i]), "residual", 1e-4, 1e-4);
          if ((c[i][3] != 0) != s->msk[i])
            orc::witness ("the mask of point %d is %g after the model is applied", i, c[i][3]);
        }
    }
  while (orc::more ());
}
