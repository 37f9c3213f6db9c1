// C15: brute-force search returns the true k nearest subsequences.
#include "match.hpp"

using namespace match;

static void run(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  int minLen = s.chance(12) ? 1 : 2;
  static const int w[] = {40, 20, 20, 10, 10};
  std::string dist = ref::NAMES[s.weighted(std::vector<int>(w, w + 5))];
  bool exact = ref::exactName(dist);
  Values m = valueMode(s, !exact);
  Table t = table(s, scaled(s, s.chance(15) ? Shape{1, 10, minLen, 12, 50} : Shape{1, 5, minLen, 8, 50}, 40), m);
  Query q = query(s, t, !exact, t.maxLen() + 5);
  double r = ratio(s);
  long total = t.subsequences();
  int k = s.chance(70) ? s.range(1, 8) : s.range(1, (int)total + 3);
  NOTE(c, dist << " k=" << k << " data " << show(t));
  noteQuery(c, q, r);
  std::string qn;
  load(a, c, t, q, qn);
  Ratio guard(r);
  if (s.chance(20)) {
    // brute force does not depend on a grouping
    a.groupDataset("d", s.unit(), ref::NAMES[s.below(3)], 1, s.chance(30));
    c.label("target grouped");
  }
  auto ask = [&](int n) {
    return api::hits(q.wholeRow ? a.getKBestMatchesBruteForce(n, "d", qn, q.index, -1, -1, dist)
                                : a.getKBestMatchesBruteForce(n, "d", qn, q.index, q.start, q.end, dist));
  };
  if (s.chance(5)) REQUIRE(api::refused([&] { ask(-s.range(0, 3)); }), "answered for k below one");
  std::vector<Hit> v = ask(k);
  api::requireRealHits(v, t);
  api::requireSorted(v);
  requireTrueDistances(v, t, dist, q.v, r);
  REQUIRE(v.size() == (size_t)std::min((long)k, total), "k=" << k << " of " << total << " subsequences, got " << v.size());
  c.label(dist);
  if (!exact) return;
  std::vector<double> all;
  for (auto& row : t.rows)
    for (size_t x = 0; x < row.size(); x++)
      for (size_t y = x + 2; y <= row.size(); y++) all.push_back(ref::warped(dist, q.v, ref::slice(row, x, y), r));
  requireNearest(v, all, k);
  if (total < k) c.label("fewer than k exist");
  if (total > k && k >= 2 && v.back().dist > 0 && v.back().dist < ref::INFTY) c.nontrivial = true;
}

PBT_MAIN("C15", run, 20, 0)
