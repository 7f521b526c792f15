// Concrete oracle for reductions, slices and index traversal (property C17).  usage: arrays SEED SECONDS
// prints "FAIL <description>" and exits 1 on the first disagreement; compiled with address and undefined behaviour sanitizers.
#include "NDArray.h"
#include "NDArrayUtils.h"
#include "Index.h"
#include <random>
#include <chrono>
#include <cstdio>
#include <sstream>
#include <map>
#include <algorithm>
#include <unistd.h>

typedef std::vector<int64_t> V;
static std::mt19937_64 rng;
static int64_t R(int64_t a, int64_t b) { return a + (int64_t)(rng() % (uint64_t)(b - a + 1)); }
static std::string ctx;
static std::string str(const V& v) { std::ostringstream o; o << "("; for (auto x : v) o << x << ","; o << ")"; return o.str(); }
static void fail(const std::string& m) { printf("FAIL %s [%s]\n", m.c_str(), ctx.c_str()); fflush(stdout); _exit(1); }

static size_t rankOf(const V& s, const V& x) { size_t r = 0; for (size_t i = 0; i < s.size(); ++i) r = r * s[i] + x[i]; return r; }
static V unrank(const V& s, size_t r) { V x(s.size()); for (size_t i = s.size(); i-- > 0;) { x[i] = r % s[i]; r /= s[i]; } return x; }
static size_t total(const V& s) { size_t r = 1; for (auto x : s) r *= x; return r; }

static V shape(int dmin, int dmax)
{
  for (;;) {
    V s(R(dmin, dmax));
    int64_t mx = R(1, 6);
    if (R(0, 30) == 0) mx = 40;
    for (auto& x : s) x = R(1, mx);
    if (total(s) <= 5000) return s;
  }
}

template<typename T> static void fill(NDArray<T>& a, std::vector<T>& f)
{
  // through the documented index operator
  f.resize(a.storageSize());
  for (size_t r = 0; r < f.size(); ++r) { f[r] = (T)R(-50, 1000); V x = unrank(a.sizes(), r); a[x] = f[r]; }
  // row-major storage
  for (size_t r = 0; r < f.size(); ++r) if (a.rawData()[r] != f[r]) fail("storage is not row-major");
}

template<typename T> static void once()
{
  V s = shape(1, 5);
  ctx = "sizes=" + str(s);
  size_t n = total(s), d = s.size();
  NDArray<T> a(s);
  if (a.storageSize() != n || a.dim() != d || a.sizes() != s) fail("NDArray shape");
  std::vector<T> f;
  fill(a, f);
  // full traversal
  {
    size_t r = 0;
    for (Index i(s); !i.end(); ++i, ++r) {
      if (r >= n) fail("Index visits too many cells");
      if (static_cast<const V&>(i) != unrank(s, r)) fail("Index is not in row-major order");
      if (a[i] != f[r]) fail("Index element");
    }
    if (r != n) fail("Index visits too few cells");
    std::vector<char> seen(n, 0);
    r = 0;
    V rs(s.rbegin(), s.rend());
    for (TransposedIndex i(s); !i.end(); ++i, ++r) {
      if (r >= n) fail("TransposedIndex visits too many cells");
      V x = unrank(rs, r); std::reverse(x.begin(), x.end());
      if (static_cast<const V&>(i) != x) fail("TransposedIndex is not in column-major order");
    }
    if (r != n) fail("TransposedIndex visits too few cells");
  }
  // 1-d reductions
  for (size_t k = 0; k < d; ++k) {
    std::vector<T> e(s[k], 0);
    for (size_t r = 0; r < n; ++r) e[unrank(s, r)[k]] += f[r];
    if (reduce(a, k) != e) fail("reduce to dimension " + std::to_string(k));
  }
  for (size_t k : {d, d + 1, d + 7}) {
    bool thrown = false;
    try { reduce(a, k); } catch (const std::exception&) { thrown = true; }
    if (!thrown) fail("reduce accepted dimension " + std::to_string(k));
  }
  // reductions to several dimensions, in any order
  V dims(d); for (size_t i = 0; i < d; ++i) dims[i] = i;
  std::shuffle(dims.begin(), dims.end(), rng);
  {
    V p(dims.begin(), dims.begin() + R(1, d));
    ctx += " kept=" + str(p);
    V ps(p.size()); for (size_t i = 0; i < p.size(); ++i) ps[i] = s[p[i]];
    std::vector<T> e(total(ps), 0);
    for (size_t r = 0; r < n; ++r) { V x = unrank(s, r), y(p.size()); for (size_t i = 0; i < p.size(); ++i) y[i] = x[p[i]]; e[rankOf(ps, y)] += f[r]; }
    NDArray<T> q = reduce(a, p);
    if (q.sizes() != ps || q.storageSize() != e.size()) fail("reduce shape");
    for (size_t r = 0; r < e.size(); ++r) if (q.rawData()[r] != e[r]) fail("reduce to several dimensions");
    // mapped traversal moves only the mapped dimensions and visits each combination once
    Index main(s);
    V start = unrank(s, R(0, n - 1));
    for (size_t i = 0; i < d; ++i) main[i] = start[i];
    for (auto x : p) main[x] = 0;
    size_t r = 0;
    for (MappedIndex m(main, p); !m.end(); ++m, ++r) {
      if (r >= e.size()) fail("MappedIndex visits too many combinations");
      V y = unrank(ps, r), x = start;
      for (size_t i = 0; i < p.size(); ++i) { x[p[i]] = y[i]; if (m[i] != y[i]) fail("MappedIndex value"); }
      if (static_cast<const V&>(main) != x) fail("MappedIndex changes other dimensions");
    }
    if (r != e.size()) fail("MappedIndex visits too few combinations");
    V bad = p; bad[R(0, p.size() - 1)] = R(0, 1) ? (int64_t)d + R(0, 3) : -R(1, 3);
    bool thrown = false;
    try { NDArray<T> q2 = reduce(a, bad); } catch (const std::exception&) { thrown = true; }
    if (!thrown) fail("reduce accepted dimensions " + str(bad));
  }
  // slices
  if (d > 1) {
    std::shuffle(dims.begin(), dims.end(), rng);
    size_t k = R(0, d - 1);
    std::vector<std::pair<int64_t, int64_t>> fx;
    V fixed(d, -1);
    for (size_t i = 0; i < k; ++i) { fx.push_back({dims[i], R(0, s[dims[i]] - 1)}); fixed[dims[i]] = fx.back().second; }
    for (auto& x : fx) ctx += " fixed " + std::to_string(x.first) + ":" + std::to_string(x.second);
    V fs, free; for (size_t i = 0; i < d; ++i) if (fixed[i] < 0) { fs.push_back(s[i]); free.push_back(i); }
    NDArray<T> q = k == 1 && R(0, 1) ? slice(a, fx[0]) : slice(a, fx);
    if (q.sizes() != fs || q.storageSize() != total(fs)) fail("slice shape");
    for (size_t r = 0; r < q.storageSize(); ++r) {
      V y = unrank(fs, r), x = fixed;
      for (size_t i = 0; i < free.size(); ++i) x[free[i]] = y[i];
      if (q.rawData()[r] != f[rankOf(s, x)]) fail("slice element");
    }
    auto bad = fx;
    int64_t dd = R(0, d - 1);
    switch (R(0, 4)) {
      case 0: bad.push_back({(int64_t)d + R(0, 2), 0}); break;
      case 1: bad = {{dd, s[dd] + R(0, 2)}}; break;
      case 2: bad = {{dd, -R(1, 2)}}; break;
      case 3: bad = {{dd, 0}, {dd, s[dd] - 1}}; break;
      default: bad = {{-R(1, 2), 0}};
    }
    bool thrown = false;
    try { NDArray<T> q2 = slice(a, bad); } catch (const std::exception&) { thrown = true; }
    if (!thrown) fail("slice accepted an invalid dimension or category " + std::to_string(bad.back().first) + ":" + std::to_string(bad.back().second));
  }
  // copies and sums
  NDArray<T> c;
  if (R(0, 1)) c.resize(shape(1, 4));
  NDArray<T>::copy(a, c);
  if (c.sizes() != s) fail("copy shape");
  for (size_t r = 0; r < n; ++r) { V x = unrank(s, r); if (c[x] != f[r]) fail("copy element"); }
  T mn = f[0], sm = 0;
  for (auto x : f) { mn = std::min(mn, x); sm += x; }
  if (min(a) != mn) fail("min");
  if (sum(a) != sm) fail("sum");
}

int main(int argc, char** argv)
{
  rng.seed(atoll(argv[1]));
  double secs = atof(argv[2]);
  auto t0 = std::chrono::steady_clock::now();
  long n = 0;
  while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) { once<int64_t>(); once<double>(); n += 2; }
  printf("OK %ld\n", n);
  return 0;
}
