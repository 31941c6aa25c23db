// C05: selection and recombination against a replay of the search
#include "es_ref.h"

void
check (orc::Rng &r)
{
  do
    es::search (r, es::SELECTION);
  while (orc::more ());
}
