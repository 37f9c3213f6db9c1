// A reported matching is a valid optimal alignment.
#include "api.hpp"

using namespace pbt;

static void prop(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  double ratio = gen::ratio(s);
  a.setWarpingBandRatio(ratio);
  std::string name = ref::NAMES[s.weighted({4, 3, 3, 1, 1})];
  bool exact = ref::exactName(name);
  gen::Values v = gen::valueMode(s);
  int lim = gen::scaledLimit(s, s.chance(20) ? 24 : 9, 250);
  int m = s.range(1, lim);
  int n = s.chance(40) ? m : s.chance(60) ? std::min(lim, m + s.range(0, 3)) : s.range(1, lim);
  if (s.chance(50)) std::swap(m, n);
  int pad = s.range(0, 2);
  gen::Table t;
  t.rows.push_back(gen::series(s, v, pad + m + s.range(0, 2)));
  t.rows.push_back(gen::series(s, v, n + s.range(0, 2)));
  if (s.chance(20)) {
    for (int j = 0, i = 0; j < n; j++) {
      t.rows[1][j] = t.rows[0][pad + std::min(i, m - 1)];
      i += s.range(0, 2);
    }
  }
  ref::Vec x = ref::slice(t.rows[0], pad, pad + m), y = ref::slice(t.rows[1], 0, n);
  NOTE(c, name << " ratio " << ratio << " " << gen::show(x) << " " << gen::show(y));
  gen::writeTable(c.path("t"), t);
  a.loadDataset("t", c.path("t"));
  std::string dtw = name + "_dtw";
  if (s.chance(20))  // something asked before must not matter
    a.matchingBetween("t", 1, 0, 1, "t", 0, 0, 1, "euclidean_dtw");
  double d = a.distanceBetween("t", 0, pad, pad + m, "t", 1, 0, n, dtw);
  int r = ref::band(std::max(m, n), ratio);
  bool reach = std::abs(m - n) <= r;
  genex::matching_t p = a.matchingBetween("t", 0, pad, pad + m, "t", 1, 0, n, dtw);
  genex::matching_t again = a.matchingBetween("t", 0, pad, pad + m, "t", 1, 0, n, dtw);
  REQUIRE(p == again, "the matching differs when asked again");
  if (reach) {
    std::ostringstream o;
    for (auto& q : p) o << "(" << q.first << "," << q.second << ")";
    std::string ps = o.str();
    REQUIRE(!p.empty(), "empty matching for lengths " << m << " and " << n);
    REQUIRE(p.front() == std::make_pair(0, 0), "matching starts at the wrong point: " << ps);
    REQUIRE(p.back() == std::make_pair(m - 1, n - 1), "matching ends at the wrong point: " << ps);
    double sum = 0, mx = 0;
    for (size_t k = 0; k < p.size(); k++) {
      int i = p[k].first, j = p[k].second;
      REQUIRE(i >= 0 && i < m && j >= 0 && j < n && std::abs(i - j) <= r,
              "matching leaves the band " << r << " at (" << i << "," << j << "): " << ps);
      if (k) {
        int di = i - p[k - 1].first, dj = j - p[k - 1].second;
        REQUIRE(di >= 0 && di <= 1 && dj >= 0 && dj <= 1 && di + dj >= 1,
                "matching makes an invalid step to (" << i << "," << j << "): " << ps);
      }
      double df = std::fabs(x[i] - y[j]);
      sum += name == "euclidean" ? df * df : df;
      mx = std::max(mx, df);
    }
    if (exact) {
      double cost = ref::normWarp(name, name == "chebyshev" ? mx : sum, m, n);
      REQUIRE(ref::close(cost, d), "the matching " << ps << " costs " << cost << ", the distance is " << d);
      REQUIRE(ref::close(cost, ref::warped(name, x, y, ratio)), "the matching " << ps << " costs " << cost
              << ", the optimum is " << ref::warped(name, x, y, ratio));
    }
    if (p.size() > (size_t)std::max(m, n)) c.label("bent path");
  }
  if (s.chance(10))
    REQUIRE(api::refused([&] { a.matchingBetween("t", 0, -1, -1, "t", 0, -1, -1, name); }),
            "matching accepts the point-wise distance " << name);
  c.label(dtw);
  c.label(!reach ? "unreachable" : r == 0 ? "band 0" : r >= std::max(m, n) - 1 ? "full band" : "partial band");
  c.nontrivial = reach && m >= 2 && n >= 2 && r > 0;
}

PBT_MAIN("C07", prop, 20, 0)
