// C13: the best match is the nearest member of the group with the nearest representative.
#include "match.hpp"

using namespace match;

static void run(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  int minLen = s.chance(12) ? 1 : 2;
  Case k = generate(s, scaled(s, s.chance(15) ? Shape{1, 10, minLen, 14, 50} : Shape{1, 6, minLen, 9, 50}, 40));
  if (k.t.maxLen() < 2) k.whole = false;  // length-one matches are outside of the search
  bool positive = !ref::exactName(k.dist);
  Query q = query(s, k.t, positive, k.t.maxLen() + 6);
  double r = ratio(s);
  note(c, k);
  noteQuery(c, q, r);
  std::string qn;
  load(a, c, k.t, q, qn);
  Ratio guard(r);
  auto ask = [&]() {
    return q.wholeRow ? a.getBestMatch("d", qn, q.index) : a.getBestMatch("d", qn, q.index, q.start, q.end);
  };
  if (s.chance(5)) REQUIRE(api::refused([&] { ask(); }), "best match answered although the target is not grouped");
  a.groupDataset("d", k.thr, k.dist, k.threads, k.whole);
  Grouping g = api::exportGroups(a, "d", c.path("g"));

  std::vector<const Group*> cand;
  std::vector<double> repDist;
  double best = ref::INFTY;
  int len = q.v.size();
  for (auto& gr : g.groups) {
    if (!ref::lengthReachable(len, gr.length, r)) continue;
    cand.push_back(&gr);
    double d = ref::exactName(k.dist) ? ref::warped(k.dist, q.v, gr.rep, r) : 0;
    repDist.push_back(d);
    best = std::min(best, d);
  }
  if (len <= 1 || cand.empty()) {
    REQUIRE(api::refused([&] { ask(); }), "a best match is returned for a query of length " << len
                                            << " that no group can be compared with");
    c.label(len <= 1 ? "query too short" : "nothing comparable");
    return;
  }
  std::vector<Hit> v{api::hit(ask())};
  api::requireRealHits(v, k.t);
  Hit h = v[0];
  requireTrueDistances(v, k.t, k.dist, q.v, r);
  if (ref::exactName(k.dist)) {
    bool explained = false;
    double repOf = 0, minOf = 0;
    size_t ties = 0;
    for (size_t i = 0; i < cand.size(); i++) {
      bool near = ref::close(repDist[i], best);
      if (near) ties++;
      bool holds = false;
      for (auto& m : cand[i]->members)
        if (cand[i]->length == h.end - h.start && m.first == h.index && m.second == h.start) holds = true;
      if (!holds) continue;
      repOf = repDist[i];
      minOf = ref::INFTY;
      for (auto& m : cand[i]->members)
        minOf = std::min(minOf, ref::warped(k.dist, q.v, member(k.t, m, cand[i]->length), r));
      if (near && ref::close(minOf, h.dist)) explained = true;
    }
    REQUIRE(explained, "best match " << api::show(h) << ": its group's representative is at " << repOf
                         << " and nearest member at " << minOf << "; the nearest representative is at " << best);
    if (ties > 1) c.label("tied representatives");
  }
  c.label(k.dist);
  if ((int)q.v.size() > k.t.maxLen()) c.label("query longer than the target");
  if (h.end - h.start != len) c.label("match of another length");
  if (cand.size() >= 2 && ref::exactName(k.dist) && h.dist > 0) c.nontrivial = true;
}

PBT_MAIN("C13", run, 20, 0)
