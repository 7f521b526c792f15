// the real generator, started a few points before its limit: include the real source and wrap the constructor
#define nlopt_sobol_create nlopt_sobol_create_real
#include "SobolImpl.cpp"
#undef nlopt_sobol_create
extern "C" SobolData* nlopt_sobol_create(uint32_t sdim)
{
  SobolData* s = nlopt_sobol_create_real(sdim);
  if (s) s->n = 4294967295U - 5;
  return s;
}
