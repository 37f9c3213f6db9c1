// C14: the k best matches, with the stated number of examined candidates.
#include "match.hpp"

using namespace match;

static void run(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  int minLen = s.chance(12) ? 1 : 2;
  Case k = generate(s, scaled(s, s.chance(15) ? Shape{1, 10, minLen, 12, 50} : Shape{1, 6, minLen, 8, 50}, 40));
  if (k.t.maxLen() < 2) k.whole = false;  // length-one matches are outside of the search
  bool exact = ref::exactName(k.dist);
  Query q = query(s, k.t, !exact, k.t.maxLen() + 5);
  double r = ratio(s);
  std::string qn;
  load(a, c, k.t, q, qn);
  Ratio guard(r);
  long total = k.t.subsequences();
  int kk = s.chance(70) ? s.range(1, 6) : s.range(1, (int)total + 3);
  int e = 0;
  switch (s.below(4)) {
    case 0: e = kk; break;
    case 1: e = kk + s.range(0, 8); break;
    case 2: e = kk + s.range(0, (int)total); break;
    default: e = kk + (int)total; break;
  }
  note(c, k);
  noteQuery(c, q, r);
  NOTE(c, "k=" << kk << " examined=" << e);
  auto ask = [&](int n, int m) {
    return api::hits(q.wholeRow ? a.getKBestMatches(n, m, "d", qn, q.index)
                                : a.getKBestMatches(n, m, "d", qn, q.index, q.start, q.end));
  };
  if (s.chance(3)) REQUIRE(api::refused([&] { ask(kk, e); }), "answered although the target is not grouped");
  a.groupDataset("d", k.thr, k.dist, k.threads, k.whole);
  Grouping g = api::exportGroups(a, "d", c.path("g"));
  int len = q.v.size();

  struct G
  {
    const Group* g;
    double rep;
    std::vector<double> d;
  };
  std::vector<G> reach;
  size_t reachable = 0;
  for (auto& gr : g.groups) {
    if (!ref::lengthReachable(len, gr.length, r)) continue;
    G x;
    x.g = &gr;
    x.rep = exact ? ref::warped(k.dist, q.v, gr.rep, r) : 0;
    if (exact)
      for (auto& m : gr.members) x.d.push_back(ref::warped(k.dist, q.v, member(k.t, m, gr.length), r));
    std::sort(x.d.begin(), x.d.end());
    reachable += gr.members.size();
    reach.push_back(x);
  }
  if (s.chance(10)) {
    int bad = s.range(1, 3);
    if (bad == 1) REQUIRE(api::refused([&] { ask(kk, kk - s.range(1, kk + 2)); }),
                          "answered with fewer examined candidates than results");
    else if (bad == 2) REQUIRE(api::refused([&] { ask(0, s.range(0, 3)); }), "answered a request for 0 results");
    else REQUIRE(api::refused([&] { ask(-s.range(1, 4), s.range(-3, 3)); }), "answered a request for a negative number");
    c.label("refused request");
  }
  std::vector<Hit> v = ask(kk, e);
  api::requireRealHits(v, k.t);
  api::requireSorted(v);
  requireTrueDistances(v, k.t, k.dist, q.v, r);
  for (auto& h : v) {
    bool in = false;
    for (auto& x : reach)
      for (auto& m : x.g->members)
        if (x.g->length == h.end - h.start && m.first == h.index && m.second == h.start) in = true;
    REQUIRE(in, "result " << api::show(h) << " is no member of a group that can be compared with the query");
  }
  size_t want = std::min((size_t)kk, reachable);
  REQUIRE(v.size() == want, "k=" << kk << ", " << reachable << " subsequences can be compared, got " << v.size());
  c.label(k.dist);
  if (!exact || want == 0) return;

  // candidates: whole groups in order of their representatives, the last one only with its best members
  std::sort(reach.begin(), reach.end(), [](const G& x, const G& y) { return x.rep < y.rep; });
  size_t cum = 0, last = 0;
  while (last < reach.size() && cum + reach[last].d.size() < (size_t)e) cum += reach[last++].d.size();
  std::vector<double> sure, possible;
  bool tie = false;
  if (last >= reach.size()) {
    for (auto& x : reach) sure.insert(sure.end(), x.d.begin(), x.d.end());
    possible = sure;
    c.label("everything examined");
  }
  else {
    double edge = reach[last].rep;
    size_t inTie = 0;
    for (auto& x : reach) if (ref::close(x.rep, edge)) inTie++;
    tie = inTie > 1;
    for (size_t i = 0; i < reach.size(); i++) {
      G& x = reach[i];
      bool at = ref::close(x.rep, edge);
      if (!at && x.rep < edge) {
        sure.insert(sure.end(), x.d.begin(), x.d.end());
        possible.insert(possible.end(), x.d.begin(), x.d.end());
      }
      else if (at && !tie) {
        sure.insert(sure.end(), x.d.begin(), x.d.begin() + (e - cum));
        possible.insert(possible.end(), x.d.begin(), x.d.begin() + (e - cum));
      }
      else if (at) {
        possible.insert(possible.end(), x.d.begin(), x.d.end());
      }
    }
  }
  std::sort(sure.begin(), sure.end());
  std::sort(possible.begin(), possible.end());
  for (size_t i = 0; i < v.size(); i++) {
    REQUIRE(i < possible.size() && ref::leq(possible[i], v[i].dist, 1e-8),
            "result " << i << " at " << v[i].dist << " is nearer than the examined candidates allow; got " << api::show(v));
    if (i < sure.size())
      REQUIRE(ref::leq(v[i].dist, sure[i], 1e-8), "result " << i << " is at " << v[i].dist
                 << " although examined candidates hold one at " << sure[i] << "; got " << api::show(v));
  }
  if (tie) c.label("tie at the edge");
  if (reachable < (size_t)kk) c.label("fewer than k exist");
  if (reach.size() >= 2 && !tie && last < reach.size()) c.nontrivial = true;
}

PBT_MAIN("C14", run, 20, 0)
