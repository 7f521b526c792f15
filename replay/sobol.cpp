// Concrete oracle for Sobol sequences (C10, C11).  usage: sobol c10|c11 LEVEL SEED
#include "Sobol.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <random>
#include <stdexcept>

static long cases = 0;
static int fail(const std::string& m) { printf("FAIL %s\n", m.c_str()); return 1; }

static int c10(int level, int seed)
{
  // all dimensions at once: the first 2^k-1 points are the non-zero multiples of 2^-k, for all k<=K
  const int D = 1111, K = level ? 17 : 12;
  {
    Sobol s(D);
    std::vector<std::vector<bool>> seen(D);
    for (int k = 1; k <= K; ++k) {
      // points 2^(k-1)..2^k-1 must be the odd multiples of 2^-k (the others were visited before)
      for (auto& v : seen) v.assign(1u << (k - 1), false);
      for (uint32_t n = 1u << (k - 1); n < (1u << k); ++n) {
        const std::vector<uint32_t>& p = s.buf();
        for (int d = 0; d < D; ++d) {
          uint32_t x = p[d];
          ++cases;
          if (x & ((1ull << (32 - k)) - 1)) return fail("dimension " + std::to_string(d + 1) + " point " + std::to_string(n) + " is not a multiple of 2^-" + std::to_string(k));
          uint32_t y = x >> (32 - k);
          if (!(y & 1)) return fail("dimension " + std::to_string(d + 1) + " point " + std::to_string(n) + " repeats a coarser multiple");
          if (seen[d][y >> 1]) return fail("dimension " + std::to_string(d + 1) + " point " + std::to_string(n) + " repeats a value");
          seen[d][y >> 1] = true;
        }
      }
    }
  }
  // single dimensions further out, and independence of the total number of dimensions
  std::mt19937 rng(seed);
  for (int r = 0; r < (level ? 12 : 3); ++r) {
    uint32_t d = r == 0 ? 1 : 1 + rng() % 40;
    const int k = level ? 23 : 19;
    Sobol s(d), t(d + 1 + rng() % 20);
    std::vector<bool> seen(1u << k, false);
    for (uint32_t n = 1; n < (1u << k); ++n) {
      uint32_t x = s.buf()[d - 1];
      ++cases;
      if (n < 5000 && t.buf()[d - 1] != x) return fail("dimension " + std::to_string(d) + " depends on the number of dimensions");
      if (x & ((1u << (32 - k)) - 1)) return fail("not a multiple");
      x >>= 32 - k;
      if (!x || seen[x]) return fail("dimension " + std::to_string(d) + " repeats value " + std::to_string(x));
      seen[x] = true;
    }
  }
  return 0;
}

static int c11(int level, int)
{
  std::vector<uint32_t> ns = {1, 2, 3, 4, 5, 8, 9, 1u << 16, (1u << 16) + 1, 1u << 20, (1u << 24) - 1};
  if (level) for (uint32_t x : {1u << 31, (1u << 31) + 1, 4294967295u}) ns.push_back(x);
  else ns.push_back((1u << 31) + 1);
  for (uint32_t n : ns) {
    uint64_t m = 1;
    while (m * 2 < n) m *= 2;
    uint32_t d = n > (1u << 25) ? 1 : 3;
    Sobol a(d, n), b(d);
    for (uint64_t i = 0; i < m; ++i) b.buf();
    for (int i = 0; i < 9; ++i) { ++cases; if (a.buf() != b.buf()) return fail("skip " + std::to_string(n) + " does not discard " + std::to_string(m) + " points"); }
  }
  for (size_t d : {(size_t)0, (size_t)1112, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, ~(size_t)0}) {
    bool thrown = false;
    ++cases;
    try { Sobol s(d); } catch (const std::exception&) { thrown = true; }
    if (!thrown) return fail("dimension " + std::to_string(d) + " accepted");
  }
  for (size_t d : {1, 2, 1110, 1111}) { ++cases; Sobol s(d); if (s.dim() != d) return fail("dim"); }
  return 0;
}

int main(int argc, char** argv)
{
  int r = std::string(argv[1]) == "c10" ? c10(atoi(argv[2]), atoi(argv[3])) : c11(atoi(argv[2]), atoi(argv[3]));
  if (!r) printf("OK %ld\n", cases);
  return r;
}
