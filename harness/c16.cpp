// C16: PAA representations and search.
#include "match.hpp"

#include "PAAWrapper.hpp"
#include "TimeSeriesSet.hpp"

using namespace match;

static void run(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  static const int w[] = {40, 20, 20, 10, 10};
  std::string dist = ref::NAMES[s.weighted(std::vector<int>(w, w + 5))];
  bool exact = ref::exactName(dist);
  Values m = valueMode(s, !exact);
  Table t = table(s, scaled(s, s.chance(15) ? Shape{1, 8, 1, 14, 60} : Shape{1, 4, 1, 9, 60}, 40), m);
  Query q = query(s, t, !exact, t.maxLen() + 6);
  double r = ratio(s);
  int block = s.chance(70) ? s.range(1, 5) : s.range(1, t.maxLen() + 4);
  long total = t.subsequences();
  int k = s.chance(70) ? s.range(1, 8) : s.range(1, (int)total + 3);
  NOTE(c, dist << " block=" << block << " k=" << k << " data " << show(t));
  noteQuery(c, q, r);
  std::string qn;
  load(a, c, t, q, qn);
  Ratio guard(r);

  // the representation itself
  {
    genex::TimeSeriesSet set;
    set.loadData(c.path("d"), 0, 0, " ", false);
    genex::PAAWrapper p(set);
    if (s.chance(20)) p.generatePAAMatrix(s.range(1, 6));
    p.generatePAAMatrix(block);
    for (int n = 0; n < 6; n++) {
      int i = s.below(t.rows.size()), len = t.rows[i].size();
      int from = s.range(0, len - 1), to = s.range(from + 1, len);
      genex::TimeSeries x = p.getPAA(i, from, to);
      Vec want = ref::paa(ref::slice(t.rows[i], from, to), block);
      REQUIRE(api::sameVec(api::values(x), want), "representation of " << i << "[" << from << "," << to << ") with blocks of "
                << block << " is " << show(api::values(x)) << ", the block means are " << show(want));
    }
    int any = s.below(t.rows.size());
    if (!t.rows[any].empty())
      REQUIRE(api::sameVec(api::values(p.getPAA(any, -1, -1)), ref::paa(t.rows[any], block)),
              "representation of the whole row " << any << " is " << show(api::values(p.getPAA(any, -1, -1))));
    int bad = s.below(t.rows.size());
    int len = t.rows[bad].size();
    REQUIRE(api::refused([&] { p.getPAA(bad, 0, len + s.range(1, 3)); }), "a representation past the end of a row is returned");
    REQUIRE(api::refused([&] { p.getPAA((int)t.rows.size(), 0, 1); }), "a representation of a missing row is returned");
  }

  auto ask = [&](int n) {
    return api::hits(q.wholeRow ? a.getKBestMatchesPAA(n, "d", qn, q.index, -1, -1, dist)
                                : a.getKBestMatchesPAA(n, "d", qn, q.index, q.start, q.end, dist));
  };
  if (s.chance(5)) REQUIRE(api::refused([&] { ask(k); }), "PAA search answered although the target is not prepared");
  if (s.chance(20)) { a.preparePAA("d", s.range(1, 6)); c.label("prepared again"); }
  a.preparePAA("d", block);
  if (s.chance(10)) {
    REQUIRE(api::refused([&] { a.preparePAA("d", -s.range(0, 2)); }), "a block size below one is accepted");
    c.label("refused block size");
  }
  bool flat = true;
  for (auto& row : t.rows) for (double d : row) if (d != t.rows[0][0]) flat = false;
  if (exact && !flat && s.chance(15)) {
    a.normalizeDataset("d");
    for (size_t i = 0; i < t.rows.size(); i++) t.rows[i] = api::values(a.getTimeSeries("d", i, 0, t.rows[i].size()));
    if (q.own) q.v = ref::slice(t.rows[q.index], q.start, q.end);
    c.label("normalized after preparing");
  }
  if (s.chance(5)) REQUIRE(api::refused([&] { ask(-s.range(0, 3)); }), "answered for k below one");
  std::vector<Hit> v = ask(k);
  api::requireRealHits(v, t);
  api::requireSorted(v);
  REQUIRE(v.size() == (size_t)std::min((long)k, total), "k=" << k << " of " << total << " subsequences, got " << v.size());
  Vec pq = ref::paa(q.v, block);
  for (auto& h : v) {
    Vec px = ref::paa(sub(t, h), block);
    if (exact) {
      double d = ref::warped(dist, pq, px, r);
      REQUIRE(ref::close(d, h.dist), "result " << api::show(h) << ": the representations are " << d << " apart");
    }
    else {
      REQUIRE(ownDistance(dist, pq, px, h.dist), "result " << api::show(h) << " does not report its representation's distance");
    }
  }
  c.label(dist);
  if (!exact) return;
  std::vector<double> all;
  for (auto& row : t.rows)
    for (size_t x = 0; x < row.size(); x++)
      for (size_t y = x + 2; y <= row.size(); y++)
        all.push_back(ref::warped(dist, pq, ref::paa(ref::slice(row, x, y), block), r));
  requireNearest(v, all, k);
  if (block >= 2 && total > k && k >= 2 && v.back().dist > 0) c.nontrivial = true;
  if ((int)q.v.size() > t.maxLen()) c.label("query longer than the target");
}

PBT_MAIN("C16", run, 20, 0)
