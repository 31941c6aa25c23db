// C09: free parameters and the parameter vector of the fit, cost of a model
#include "model_ref.h"

void
check (orc::Rng &r)
{
  do
    {
      const mdl::Def d = mdl::random (r);
      const std::string t = d.text (r);
      orc::begin ("model definition:\n%.4000s", t.c_str ());
      std::vector<mdl::Model> m;
      if (not mdl::parse (t, m))
        continue; // e.g. no data in the interval; whether a definition is accepted is the subject of C10
      mdl::agree (d, m[0], r);
    }
  while (orc::more ());
  mdl::cleanup ();
}
