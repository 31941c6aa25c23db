// C12: the background continuum is the weighted least squares Legendre polynomial
#include "oracle.h"
#ifndef PUBLIC_ONLY
#define USE_PRIVATE
#endif
#include "section_ref.h"

static bool
fails (Section &s, int m, double R, const Tau &t)
{
  try
    {
      s.apply (m, R, t);
    }
  catch (std::runtime_error &e)
    {
      return true;
    }
  return false;
}

void
check (orc::Rng &r)
{
  do
    {
      const int m = r.n (0, 6), n = r.n (3 * m + 3, 3 * m + 40);
      std::unique_ptr<Spectrum> s (spectrum (r, n));
      orc::begin ("section with %d points from %.17g to %.17g, %d polynomials", n, s->wav[0], s->wav[n - 1], m);
      for (int k = r.n (0, 2); k > 0; k--)
        {
          const int i = r.n (0, n - 1), j = std::min (n - 1, i + (int)r.n (0, n / 4));
          hide (*s, s->wav[i], s->wav[j]);
        }
      const double R = resolution (r, *s);
      Tau t;
      t.base = r.u (0, 1);
      // nothing to fit
      if (r.n (0, 9) == 0 && m > 0)
        {
          Tau z = t;
          z.base = 1e5;
          if (!fails (s->sec, m, R, z))
            orc::witness ("no error for an absorption that vanishes everywhere");
          s->sec.mask (0, 1e9);
          if (!fails (s->sec, m, R, t))
            orc::witness ("no error although all points are masked");
          continue;
        }
      if (r.n (0, 9) == 0 && m > 1)
        {
          // fewer points than polynomials
          std::unique_ptr<Spectrum> f (spectrum (r, m + 2));
          for (int i = 1; i < m + 2; i++)
            hide (*f, f->wav[i], f->wav[i]);
          (void)f;
        }
      t = lines (r, *s, R);
#ifdef PUBLIC_ONLY
      if (std::count (s->msk.begin (), s->msk.end (), true) < 2 * m)
        continue;
      s->sec.apply (m, R, t);
      const std::vector<Vec> c = columns (s->sec);
      Vec cat (n), cfl (n);
      for (int i = 0; i < n; i++)
        cat[i] = c[i][6], cfl[i] = c[i][7];
      VecL f;
      if (!continuum_ref (s->wav, s->flx, s->unc, s->msk, m, cat, f))
        continue;
      const double tol = 1e-5;
#else
      std::valarray<double> cat (n), cfl (n);
      for (int i = 0; i < n; i++)
        cat[i] = r.n (0, 9) ? r.u (0.05, 1) : 0;
      VecL f;
      if (!continuum_ref (s->wav, s->flx, s->unc, s->msk, m, cat, f))
        continue;
      s->sec.continuum (m, cat, cfl);
      const double tol = 1e-7;
#endif
      L big = 0;
      for (int i = 0; i < n; i++)
        big = std::max (big, std::fabs (f[i]));
      for (int i = 0; i < n; i++)
        if (!orc::close (cfl[i], (double)f[i], 0, tol * big))
          orc::witness ("continuum %.17g at point %d (%.17g), least squares give %.17g", (double)cfl[i], i, s->wav[i], (double)f[i]);
#ifndef PUBLIC_ONLY
      // masked points have no influence
      Vec flx = s->flx, unc = s->unc;
      std::valarray<double> c2 = cat, f2 (n);
      for (int i = 0; i < n; i++)
        if (!s->msk[i])
          flx[i] = r.u (-1e3, 1e3), unc[i] = r.u (1e-3, 10), c2[i] = r.u (0, 5);
      Section x (n, s->wav.data (), flx.data (), unc.data ());
      for (int i = 0; i < n; i++)
        if (!s->msk[i])
          x.mask (s->wav[i], s->wav[i]);
      x.continuum (m, c2, f2);
      for (int i = 0; i < n; i++)
        if (!orc::close (cfl[i], f2[i], 0, 1e-11 * big))
          orc::witness ("the values of masked points change the continuum at point %d from %.17g to %.17g", i, (double)cfl[i], (double)f2[i]);
#endif
    }
  while (orc::more ());
}
