// Warped distance is the optimum over warping paths in the band.
#include "api.hpp"
#include "distance/Distance.hpp"

using namespace pbt;

static void prop(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  double ratio = gen::ratio(s);
  a.setWarpingBandRatio(ratio);
  std::string name = ref::NAMES[s.weighted({4, 3, 3, 1, 1})];
  bool exact = ref::exactName(name);
  gen::Values v = gen::valueMode(s, !exact);
  int lim = exact ? gen::scaledLimit(s, s.chance(20) ? 24 : 9, 250) : 6;
  int m = s.range(1, lim);
  int n = s.chance(40) ? m : s.chance(50) ? std::min(lim, m + s.range(0, 3)) : s.range(1, lim);
  gen::Table t;
  int pad = s.range(0, 2);
  t.rows.push_back(gen::series(s, v, pad + m + s.range(0, 2)));
  t.rows.push_back(gen::series(s, v, n + s.range(0, 2)));
  if (s.chance(15)) {
    // y = x with repeated / dropped points, so that warping really pays
    for (int j = 0, i = 0; j < n; j++) {
      t.rows[1][j] = t.rows[0][pad + std::min(i, m - 1)];
      i += s.range(0, 2);
    }
  }
  ref::Vec x = ref::slice(t.rows[0], pad, pad + m), y = ref::slice(t.rows[1], 0, n);
  NOTE(c, name << " ratio " << ratio << " " << gen::show(x) << " " << gen::show(y));
  gen::writeTable(c.path("t"), t);
  a.loadDataset("t", c.path("t"));
  std::string dtw = name + "_dtw";
  auto dist = [&](bool flip) {
    return flip ? a.distanceBetween("t", 1, 0, n, "t", 0, pad, pad + m, dtw)
                : a.distanceBetween("t", 0, pad, pad + m, "t", 1, 0, n, dtw);
  };
  double got = dist(false), rev = dist(true);
  int r = ref::band(std::max(m, n), ratio);
  bool reach = std::abs(m - n) <= r;
  REQUIRE(std::isinf(got) == !reach && !std::isnan(got),
          dtw << " is " << got << " for lengths " << m << ", " << n << " and band " << r);
  if (exact) {
    double want = ref::warped(name, x, y, ratio);
    REQUIRE(ref::close(got, want), dtw << " is " << got << ", optimum is " << want << " (band " << r << ")");
    REQUIRE(ref::close(got, rev), dtw << " is not symmetric: " << got << " and " << rev);
  }
  else if (reach) {
    std::vector<double> all;
    ref::allPathValues(name, x, y, r, 0, 0, 0, 0, 0, all);
    bool found = false, foundRev = false;
    for (double d : all) { found = found || ref::close(d, got); foundRev = foundRev || ref::close(d, rev); }
    REQUIRE(found && foundRev, dtw << " is " << got << "/" << rev << ", not the cost of any of the " << all.size()
            << " paths in the band");
  }
  double self = a.distanceBetween("t", 0, pad, pad + m, "t", 0, pad, pad + m, dtw);
  if (name != "cosine") REQUIRE(ref::close(self, 0), dtw << " of a series with itself is " << self);
  // owned copies
  genex::TimeSeries ox(m), oy(n);
  for (int i = 0; i < m; i++) ox[i] = x[i];
  for (int i = 0; i < n; i++) oy[i] = y[i];
  auto f = genex::getDistanceFromName(dtw);
  double own = f(ox, oy, ref::INFTY, genex::gNoMatching);
  REQUIRE(own == got, dtw << " of copies is " << own << ", of views " << got);
  genex::matching_t match;
  double withMatching = f(ox, oy, ref::INFTY, match);
  REQUIRE(withMatching == got, dtw << " is " << withMatching << " when a matching is asked for, else " << got);
  if (exact) {
    double wide = ratio + (1 - ratio) * s.unit();
    a.setWarpingBandRatio(wide);
    double w = dist(false);
    REQUIRE(ref::leq(w, got), dtw << " grows from " << got << " to " << w << " when the band ratio goes from "
            << ratio << " to " << wide);
    REQUIRE(ref::close(w, ref::warped(name, x, y, wide)), dtw << " after changing the band is " << w);
  }
  c.label(dtw);
  c.label(!reach ? "unreachable" : r == 0 ? "band 0" : r >= std::max(m, n) - 1 ? "full band" : "partial band");
  if (m != n) c.label("different lengths");
  if (m == 1 || n == 1) c.label("length 1");
  c.nontrivial = reach && m >= 2 && n >= 2 && got != 0;
}

PBT_MAIN("C06", prop, 20, 0)
