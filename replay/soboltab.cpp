// Direction numbers of every dimension, read through the generator: a fresh generator moved to position 2^j-1 returns its j-th direction number.
#include "SobolImpl.cpp"
#include <cstdio>
#include <random>
#include <vector>
#include <cstdlib>

int main(int, char** argv)
{
  const uint32_t D = 1111;
  std::vector<std::vector<uint32_t>> V(32, std::vector<uint32_t>(D));
  long cases = 0;
  for (int j = 0; j < 32; ++j) {
    SobolData* s = nlopt_sobol_create(D);
    s->n = (1u << j) - 1;
    nlopt_sobol_next(s, V[j].data());
    nlopt_sobol_destroy(s);
    for (uint32_t d = 0; d < D; ++d) {
      ++cases;
      uint32_t v = V[j][d];
      if (j < 31 && (v & ((1u << (31 - j)) - 1))) { printf("FAIL dimension %u: direction number %d = %08x is not a multiple of 2^-%d\n", d + 1, j, v, j + 1); return 1; }
      if (!(v >> (31 - j) & 1)) { printf("FAIL dimension %u: direction number %d = %08x is even\n", d + 1, j, v); return 1; }
    }
  }
  std::mt19937 rng(atoi(argv[1]));
  for (int r = 0; r < 3000; ++r) {
    uint32_t d = 1 + rng() % D, steps = 1 + rng() % 6;
    uint32_t n = rng() >> (rng() % 32);
    if (rng() % 3 == 0) n = (rng() | 0xffffu << (rng() % 17)) - rng() % 3;
    if (n > 4294967295u - 8) n -= 16;
    SobolData* s = nlopt_sobol_create(d);
    s->n = n;
    std::vector<uint32_t> x(d, 7), e(d, 0);
    for (uint32_t k = 0; k < steps; ++k) {
      int c = __builtin_ctz(~(n + k));
      if (!nlopt_sobol_next(s, x.data())) { printf("FAIL no point at %u\n", n + k); return 1; }
      for (uint32_t i = 0; i < d; ++i) {
        ++cases;
        e[i] ^= V[c][i];
        if (e[i] != x[i]) { printf("FAIL point %u, dimension %u of %u: not the previous point combined with direction number %d\n", n + k, i + 1, d, c); return 1; }
      }
    }
    nlopt_sobol_destroy(s);
  }
  printf("OK %ld\n", cases);
  return 0;
}
