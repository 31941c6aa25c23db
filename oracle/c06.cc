// C06: sampling and adaptation against a replay of the search
#include "es_ref.h"

void
check (orc::Rng &r)
{
  do
    es::search (r, es::ADAPTATION);
  while (orc::more ());
}
