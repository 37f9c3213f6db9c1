// C17: a saved grouping is restored completely.
#include "match.hpp"

#include <memory>

using namespace match;

struct Probe
{
  Query q;
  double ratio;
  int k, e;
};

static std::string answer(genex::GenexAPI& a, const std::string& name, const Probe& p)
{
  Ratio guard(p.ratio);
  std::string o;
  char b[64];
  auto add = [&](const Hit& h) {
    snprintf(b, sizeof b, " %d[%d,%d)=%a", h.index, h.start, h.end, h.dist);
    o += b;
  };
  try { add(api::hit(a.getBestMatch(name, "q", p.q.index, p.q.start, p.q.end))); }
  catch (const genex::GenexException& e) { o += " best match refused"; }
  try { for (auto& h : api::hits(a.getKBestMatches(p.k, p.e, name, "q", p.q.index, p.q.start, p.q.end))) add(h); }
  catch (const genex::GenexException& e) { o += " k matches refused"; }
  return o;
}

static void run(Src& s, Ctx& c)
{
  Case k = generate(s, scaled(s, s.chance(15) ? Shape{1, 10, 1, 12, 50} : Shape{1, 5, 1, 8, 50}, 40));
  bool normalized = s.chance(25);
  note(c, k);
  writeTable(c.path("d"), k.t);
  std::vector<Probe> probes;
  int np = s.range(1, 3);
  Table qt;
  for (int i = 0; i < np; i++) {
    Values m = valueMode(s, !ref::exactName(k.dist));
    Probe p;
    p.q.index = i;
    p.q.v = series(s, m, s.range(2, k.t.maxLen() + 3));
    const Vec& o = k.t.rows[s.below(k.t.rows.size())];
    if (s.chance(60)) for (size_t j = 0; j < p.q.v.size() && j < o.size(); j++) p.q.v[j] = o[j];
    p.q.start = 0;
    p.q.end = p.q.v.size();
    p.ratio = ratio(s);
    p.k = s.range(1, 6);
    p.e = p.k + s.range(0, 10);
    qt.rows.push_back(p.q.v);
    probes.push_back(p);
  }
  writeTable(c.path("q"), qt);

  genex::GenexAPI a;
  a.loadDataset("d", c.path("d"), " ");
  a.loadDataset("q", c.path("q"), " ");
  if (normalized) a.normalizeDataset("d");
  int n = a.groupDataset("d", k.thr, k.dist, k.threads, k.whole);
  std::string want = api::canonical(api::exportGroups(a, "d", c.path("e")));
  std::vector<std::string> answers;
  for (auto& p : probes) answers.push_back(answer(a, "d", p));

  std::string file = c.path("g0");
  bool text = s.chance(35);
  if (text) a.saveGroupsOld("d", file, false); else a.saveGroups("d", file);
  int hops = s.range(1, 3);
  for (int h = 0; h < hops; h++) {
    // the receiving dataset
    std::unique_ptr<genex::GenexAPI> other;
    genex::GenexAPI* to = &a;
    std::string name = "d";
    int where = s.below(3);
    if (where == 0) { other.reset(new genex::GenexAPI); to = other.get(); to->loadDataset("q", c.path("q"), " "); }
    if (where != 2) {
      name = where == 0 ? "d" : "d" + std::to_string(h);
      to->loadDataset(name, c.path("d"), " ");
      if (normalized) to->normalizeDataset(name);
    }
    if (s.chance(50)) {
      Case o = k;
      o.dist = ref::NAMES[s.below(3)];
      to->groupDataset(name, s.unit(), o.dist, 1, s.chance(50));
      c.label("replaces another grouping");
    }
    NOTE(c, "hop " << h << ": " << (text ? "text" : "compressed") << " into "
                   << (where == 0 ? "a fresh session" : where == 1 ? "another dataset" : "the same dataset"));
    int got = text ? to->loadGroupsOld(name, file) : to->loadGroups(name, file);
    REQUIRE(got == n, "restoring reports " << got << " groups, " << n << " were saved");
    auto info = to->getDatasetInfo(name);
    REQUIRE(info.isGrouped && info.distance == k.dist, "restored info: distance '" << info.distance << "'");
    REQUIRE(info.threshold == k.thr,
            "restored threshold " << info.threshold << ", saved " << k.thr);
    REQUIRE(info.isNormalized == normalized && info.itemCount == (int)k.t.rows.size() && info.itemLength == k.t.maxLen(),
            "restoring groups changed the data");
    std::string canon = api::canonical(api::exportGroups(*to, name, c.path("e")));
    REQUIRE(canon == want, "restored grouping\n" << canon << "saved grouping\n" << want);
    for (size_t i = 0; i < probes.size(); i++) {
      std::string r = answer(*to, name, probes[i]);
      REQUIRE(r == answers[i], "query " << show(probes[i].q.v) << " ratio " << probes[i].ratio << " k=" << probes[i].k
                << " e=" << probes[i].e << " answers " << r << " after restoring, before saving " << answers[i]);
    }
    // and once more from the restored one
    text = s.chance(35);
    file = c.path("g" + std::to_string(h + 1));
    if (text) to->saveGroupsOld(name, file, false); else to->saveGroups(name, file);
    if (text) c.label("text"); else c.label("compressed");
  }
  if (hops > 1) c.label("saved again after restoring");
  if (n >= 2 && k.t.subsequences() > n) c.nontrivial = true;
}

PBT_MAIN("C17", run, 20, 0)
