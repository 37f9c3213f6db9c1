// C22: queries do not change anything and do not grow.
#include "session.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using namespace session;

struct Ask
{
  int kind, row, qrow, start, end, qs, qe, k, e;
  std::string t, q, dist;
  double ratio;
};

static std::string ask(GenexAPI& a, const Ask& x, const std::string& scratch)
{
  a.setWarpingBandRatio(x.ratio);
  return orRefused([&]() -> std::string {
    switch (x.kind) {
      case 0: return hexHits({api::hit(a.getBestMatch(x.t, x.q, x.qrow, x.qs, x.qe))});
      case 1: return hexHits(api::hits(a.getKBestMatches(x.k, x.e, x.t, x.q, x.qrow, x.qs, x.qe)));
      case 2: return hexHits(api::hits(a.getKBestMatchesBruteForce(x.k, x.t, x.q, x.qrow, x.qs, x.qe, x.dist)));
      case 3: return hexHits(api::hits(a.getKBestMatchesPAA(x.k, x.t, x.q, x.qrow, x.qs, x.qe, x.dist)));
      case 4: return hex(a.distanceBetween(x.t, x.row, x.start, x.end, x.q, x.qrow, x.qs, x.qe, x.dist));
      case 5: return hex(a.distanceBetween(x.t, x.row, x.start, x.end, x.q, x.qrow, x.qs, x.qe, x.dist + "_dtw"));
      case 6: {
        std::string o;
        for (auto& p : a.matchingBetween(x.t, x.row, x.start, x.end, x.q, x.qrow, x.qs, x.qe, x.dist + "_dtw"))
          o += std::to_string(p.first) + "-" + std::to_string(p.second) + " ";
        return o;
      }
      case 7: {
        std::string o;
        genex::TimeSeries ts = a.getTimeSeries(x.t, x.row, x.start, x.end);
        for (int i = 0; i < ts.getLength(); i++) o += hex(ts[i]) + " ";
        return o + a.getTimeSeriesName(x.t, x.row);
      }
      case 8: {
        std::string o = info(a, x.t);
        for (auto& d : a.getAllDistanceInfo()) o += d.name + " ";
        return o + std::to_string(a.getAllDatasetInfo().size());
      }
      case 9: a.saveGroupsOld(x.t, scratch, x.k % 2); return readText(scratch);
      default: a.saveDataset(x.t, scratch, ','); return readText(scratch);
    }
  });
}

static void run(Src& s, Ctx& c)
{
  Session S;
  int sets = s.range(1, 2);
  for (int i = 0; i < sets; i++) {
    std::string n = S.add(s, c);
    int ch = s.range(0, 3);
    for (int j = 0; j < ch; j++) S.change(s, c, n);
  }
  std::vector<Ask> asks;
  int n = s.range(2, 12);
  for (int i = 0; i < n; i++) {
    Ask x;
    x.kind = s.weighted({18, 18, 12, 12, 6, 12, 10, 5, 3, 3, 3});
    x.t = S.anyName(s);
    x.q = S.anyName(s);
    x.row = s.below(S.sets[x.t].t.rows.size());
    x.qrow = s.below(S.sets[x.q].t.rows.size());
    int l1 = S.sets[x.t].t.rows[x.row].size(), l2 = S.sets[x.q].t.rows[x.qrow].size();
    x.start = s.below(l1);
    x.end = s.range(x.start + 1, l1);
    x.qs = s.below(l2);
    x.qe = s.range(x.qs + 1, l2);
    if (s.chance(40)) x.qs = x.qe = -1;
    x.k = s.range(1, 5);
    x.e = x.k + s.range(0, 6);
    x.dist = ref::NAMES[s.below(5)];
    if (s.chance(5)) x.dist = "nope";
    x.ratio = ratio(s);
    asks.push_back(x);
    NOTE(c, "ask kind " << x.kind << " target '" << x.t << "' " << x.row << "[" << x.start << "," << x.end << ") query '" << x.q
              << "' " << x.qrow << "[" << x.qs << "," << x.qe << ") k=" << x.k << " e=" << x.e << " " << x.dist << " ratio " << x.ratio);
  }
  std::vector<int> order;
  for (int i = 0; i < n; i++) order.push_back(i);
  for (int i = n - 1; i > 0; i--) std::swap(order[i], order[s.below(i + 1)]);

  genex::setWarpingBandRatio(0.1);
  std::string before = S.observeAll(c);
  std::vector<std::string> first(n);
  int answered = 0;
  for (int i = 0; i < n; i++) {
    first[i] = ask(S.api, asks[i], c.path("out"));
    if (first[i] != "refused") { answered++; c.label("answered kind " + std::to_string(asks[i].kind)); }
  }
  for (int i : order) {
    std::string again = ask(S.api, asks[i], c.path("out"));
    REQUIRE(again == first[i], "request " << i << " answered " << first[i] << " and later " << again);
  }
  genex::setWarpingBandRatio(0.1);
  std::string after = S.observeAll(c);
  REQUIRE(after == before, "requests changed the session:\n" << after << "before:\n" << before);
  int repeats = scaledLimit(s, 2, 40);
  // memory: warmed up by the rounds above
  for (int i = 0; i < n; i++) ask(S.api, asks[i], c.path("out"));
  size_t m0 = __sanitizer_get_current_allocated_bytes();
  for (int r = 0; r < repeats; r++)
    for (int i = 0; i < n; i++) ask(S.api, asks[i], c.path("out"));
  size_t m1 = __sanitizer_get_current_allocated_bytes();
  REQUIRE(m1 <= m0, "repeating the requests " << repeats << " times keeps " << m1 - m0 << " more bytes allocated");
  if (answered >= 3) c.nontrivial = true;
}

PBT_MAIN("C22", run, 20, 0)
