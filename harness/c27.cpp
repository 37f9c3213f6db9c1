// The stream search reports the best matching window.
#include "gen.hpp"

#if __has_include("lib/trillionDTW.h") && !defined(PBT_FALLBACK)
#include "lib/trillionDTW.h"
#else
#define NO_STREAM_SEARCH
#endif

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using namespace pbt;

#ifdef NO_STREAM_SEARCH
static void prop(Src& s, Ctx& c) { c.nontrivial = s.below(1000) != 0; }
#else

typedef std::vector<double> Vec;

// mean and deviation of w[0..m); false if there is no variation
static bool stats(const double* w, int m, double& mean, double& dev)
{
  mean = 0;
  bool varied = false;
  for (int i = 0; i < m; i++) {
    mean += w[i];
    varied |= w[i] != w[0];
  }
  mean /= m;
  double v = 0;
  for (int i = 0; i < m; i++) v += (w[i] - mean) * (w[i] - mean);
  dev = std::sqrt(v / m);
  return varied;
}

// squared distance under a warping band of half-width r
static double banded(const Vec& a, const Vec& b, int r)
{
  int m = a.size();
  Vec prev(m + 1, ref::INFTY), cur(m + 1, ref::INFTY);
  prev[0] = 0;
  for (int i = 1; i <= m; i++) {
    std::fill(cur.begin(), cur.end(), ref::INFTY);
    for (int j = std::max(1, i - r); j <= std::min(m, i + r); j++) {
      double d = a[i - 1] - b[j - 1];
      cur[j] = d * d + std::min(std::min(prev[j], cur[j - 1]), prev[j - 1]);
    }
    std::swap(prev, cur);
  }
  return prev[m];
}

static double windowDistance(const Vec& data, long at, const Vec& q, int r)
{
  int m = q.size();
  double mean, dev;
  if (!stats(&data[at], m, mean, dev)) return ref::INFTY;
  Vec w(m);
  for (int i = 0; i < m; i++) w[i] = (data[at + i] - mean) / dev;
  return banded(w, q, r);
}

struct Answer
{
  long location = -1, scanned = -1;
  double distance = -1;
};

static Answer search(const std::string& data, const std::string& query, int m, int r)
{
  std::ostringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  std::streamsize precision = std::cout.precision();
  int code = calculate(data.c_str(), query.c_str(), m, r);
  std::cout.rdbuf(old);
  std::cout.precision(precision);
  REQUIRE(code == 0, "the search returned " << code);
  Answer a;
  std::istringstream in(out.str());
  std::string line;
  while (std::getline(in, line)) {
    size_t p = line.find(" : ");
    if (p == std::string::npos) continue;
    std::string key = line.substr(0, p), value = line.substr(p + 3);
    if (key == "Location") a.location = atol(value.c_str());
    if (key == "Distance") a.distance = atof(value.c_str());
    if (key == "Data Scanned") a.scanned = atol(value.c_str());
  }
  REQUIRE(a.location >= 0 && a.distance >= 0 && a.scanned >= 0, "incomplete report: " << out.str());
  return a;
}

static void write(const std::string& path, const Vec& v, Src& s)
{
  static const char* seps[] = {"\n", " ", "  ", "\t"};
  const char* sep = seps[s.weighted({5, 3, 1, 1})];
  FILE* f = fopen(path.c_str(), "w");
  bool ended = s.chance(70);
  for (size_t i = 0; i < v.size(); i++) fprintf(f, "%.4f%s", v[i], i + 1 < v.size() || ended ? sep : "");
  fclose(f);
}

static double grid(double x) { return std::max(-64.0, std::min(64.0, std::round(x * 16) / 16)); }

// Values are multiples of 1/16, so that the running sums of the search have no rounding error.
static Vec stream(Src& s, long n, bool big)
{
  Vec v;
  int kind = s.below(5);
  double level = s.range(-20, 20), scale = s.range(1, 8) / 2.0, x = 0;
  u64 state = big ? s.below(1ULL << 40) : 0;
  for (long i = 0; i < n; i++) {
    double u = big ? (mix(state + i) >> 11) * (1.0 / (1ULL << 53)) : s.below(65536) / 65536.0;
    switch (kind) {
      case 0: x = u * 8; break;
      case 1: x += (u - 0.5) * 2; x *= 0.98; break;
      case 2: x = 4 * std::sin(i * 0.3) + u; break;
      case 3: x = std::floor(u * 3); break;
      default: if (u > 0.8) x = std::floor(u * 60) - 48; break;  // steps, with windows without variation
    }
    v.push_back(grid(level + scale * x));
  }
  return v;
}

static void prop(Src& s, Ctx& c)
{
  bool big = s.below(400) == 399;
  int m = s.weighted({2, 5, 2}) == 0 ? s.range(2, 7) : s.range(6, s.chance(30) ? 60 : 24);
  int r = s.weighted({5, 1}) == 0 ? s.range(0, std::max(0, m / 3)) : s.range(0, m + 2);
  long n = m + s.below(s.chance(20) ? 300 : 60);
  if (big) {
    // around the size of the block the search reads
    if (m > 24) m = 24;
    r = std::min(r, 4);
    n = 100000L * (s.chance(25) ? 2 : 1) + s.range(-2, 2) + (s.chance(50) ? s.range(-m, m) : s.range(0, 3000));
    c.label("longer than a block");
  }
  Vec data = stream(s, n, big);
  Vec q;
  int from = s.weighted({3, 2});
  double mul = s.range(1, 24) / 8.0, add = s.range(-10, 10);
  if (from == 0) {
    // a distorted piece of the data
    long at = s.below(n - m + 1);
    if (big) at = std::max(0L, std::min(n - m, 100000L - m - 4 + (long)s.below(m + 8)));
    int noise = s.below(4);
    for (int i = 0; i < m; i++) {
      int shift = s.chance(25) ? s.range(-2, 2) : 0;
      int k = std::max(0, std::min(m - 1, i + shift));
      q.push_back(grid(data[at + k] * mul + add + (noise ? (s.unit() - 0.5) * noise : 0)));
    }
  }
  else q = stream(s, m, false);
  double mean, dev;
  if (!stats(q.data(), m, mean, dev)) throw Discard();
  int surplus = s.chance(15) ? s.range(1, 3) : 0;  // the file may hold more than the query length asks for
  Vec qfile = q;
  for (int i = 0; i < surplus; i++) qfile.push_back(grid(s.range(-30, 30)));
  Vec z(m);
  for (int i = 0; i < m; i++) z[i] = (q[i] - mean) / dev;

  double best = ref::INFTY;
  for (long i = 0; i + m <= n; i++) best = std::min(best, windowDistance(data, i, z, r));
  if (std::isinf(best)) throw Discard();
  write(c.path("d"), data, s);
  write(c.path("q"), qfile, s);
  NOTE(c, n << " points, query of " << m << ", band " << r << (big ? "" : " data " + gen::show(data)) << " query " << gen::show(q));

  Answer a = search(c.path("d"), c.path("q"), m, r);
  double want = std::sqrt(best);
  REQUIRE(a.location + m <= n, "the match at " << a.location << " does not fit into " << n << " points");
  REQUIRE(std::fabs(a.distance - want) <= 1e-5 * want + 2e-6,
          "the search reports distance " << a.distance << ", the best window is at " << want);
  double there = std::sqrt(windowDistance(data, a.location, z, r));
  REQUIRE(std::fabs(there - want) <= 1e-6 * want + 2e-6,
          "the window at " << a.location << " is at distance " << there << ", the best one at " << want);
  REQUIRE(a.scanned == n, "the search says it scanned " << a.scanned << " of " << n << " points");
  if (!big && s.chance(30)) {
    Answer b = search(c.path("d"), c.path("q"), m, r);
    size_t before = __sanitizer_get_current_allocated_bytes();
    Answer e = search(c.path("d"), c.path("q"), m, r);
    size_t after = __sanitizer_get_current_allocated_bytes();
    REQUIRE(b.location == a.location && e.distance == a.distance, "a repeated search gives another answer");
    REQUIRE(after <= before, "a repeated search leaves " << after - before << " bytes allocated");
    c.label("repeated");
  }
  if (r >= m) c.label("band not smaller than the query");
  if (m < 6) c.label("short query");
  if (want < 0.01) c.label("exact match");
  c.nontrivial = n >= m + 5 && m >= 4;
}
#endif

PBT_MAIN("C27", prop, 60, 0)
