// C11: a subsequence joins the nearest existing group, opens a new one only beyond the threshold.
#include "grp.hpp"

using namespace grp;

// The grouping is explained by placing the subsequences in the given order.
static std::string explain(const std::vector<std::vector<int>>& order, const Case& k, int len,
                           const std::vector<Group>& gs, const std::map<std::vector<int>, int>& groupOf)
{
  double half = k.thr / 2;
  double tol = k.exactArithmetic ? 0 : 1e-9;
  std::vector<int> open;
  std::set<int> isOpen;
  for (auto& key : order) {
    int g = groupOf.at(key);
    Vec x = ref::slice(k.t.rows[key[0]], key[1], key[1] + len);
    double best = ref::INFTY, own = ref::INFTY;
    for (int h : open) {
      double d = ref::pairwise(k.dist, gs[h].rep, x);
      best = std::min(best, d);
      if (h == g) own = d;
    }
    if (!isOpen.count(g)) {
      if (!api::sameVec(x, gs[g].rep, 1e-12)) return "the first member of a group is not its representative";
      if (!open.empty() && best <= half - tol * (1 + half)) {
        std::ostringstream o;
        o.precision(17);
        o << "a new group is opened for " << show(x) << " although a representative at distance " << best
          << " is within half of the threshold " << k.thr;
        return o.str();
      }
      isOpen.insert(g);
      open.push_back(g);
    }
    else {
      std::ostringstream o;
      o.precision(17);
      if (own > half + tol * (1 + half)) {
        o << show(x) << " joined a group at distance " << own << ", threshold " << k.thr;
        return o.str();
      }
      if (own > best + tol * (1 + best)) {
        o << show(x) << " joined a group at distance " << own << " although one at " << best << " existed";
        return o.str();
      }
    }
  }
  return "";
}

static void run(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  Case k = generate(s, scaled(s, s.chance(15) ? Shape{1, 12, 2, 12, 50} : Shape{1, 6, 2, 8, 40}, 40));
  note(c, k);
  writeTable(c.path("d"), k.t);
  a.loadDataset("d", c.path("d"), " ");
  a.groupDataset("d", k.thr, k.dist, k.threads, k.whole);
  Grouping g = api::exportGroups(a, "d", c.path("g"));
  requirePartition(g, k.t, k.whole);
  // exact values of the representatives
  for (auto& gr : g.groups)
    for (auto& m : gr.members) {
      Vec v = member(k.t, m, gr.length);
      if (api::sameVec(gr.rep, v, 1e-13)) { gr.rep = v; break; }
    }

  double half = k.thr / 2;
  double tol = k.exactArithmetic ? 0 : 1e-9;
  bool monotone = ref::exactName(k.dist);
  bool several = false, joined = false, boundary = false;
  for (int len = g.from; len < g.to; len++) {
    std::vector<Group> gs;
    for (auto& gr : g.groups) if (gr.length == len) gs.push_back(gr);
    if (gs.size() > 1) several = true;
    std::map<std::vector<int>, int> groupOf;
    for (size_t i = 0; i < gs.size(); i++) {
      for (auto& m : gs[i].members) {
        groupOf[{m.first, m.second}] = i;
        Vec x = member(k.t, m, len);
        bool self = api::sameVec(x, gs[i].rep, 1e-12);
        double d = ref::pairwise(k.dist, gs[i].rep, x);
        if (!self) joined = true;
        if (d == half) boundary = true;
        if (!self || ref::exactName(k.dist))
          REQUIRE(d <= half + tol * (1 + half), "member " << show(x) << " is " << d << " away from its representative "
                                                           << show(gs[i].rep) << ", threshold " << k.thr);
      }
    }
    if (!monotone) continue;
    for (size_t i = 0; i < gs.size(); i++)
      for (size_t j = 0; j < i; j++)
        REQUIRE(ref::pairwise(k.dist, gs[i].rep, gs[j].rep) > half - tol * (1 + half),
                "two representatives of length " << len << " are within half of the threshold: " << show(gs[i].rep)
                                                  << " " << show(gs[j].rep));
    // some natural order of placing the subsequences explains the groups
    std::vector<std::vector<int>> all;
    for (auto& e : groupOf) all.push_back(e.first);
    std::string why, first;
    for (int o = 0; o < 8; o++) {
      auto ord = all;
      std::stable_sort(ord.begin(), ord.end(), [o](const std::vector<int>& x, const std::vector<int>& y) {
        int xi = (o & 2) ? -x[0] : x[0], xs = (o & 4) ? -x[1] : x[1];
        int yi = (o & 2) ? -y[0] : y[0], ys = (o & 4) ? -y[1] : y[1];
        if (o & 1) return xi != yi ? xi < yi : xs < ys;
        return xs != ys ? xs < ys : xi < yi;
      });
      why = explain(ord, k, len, gs, groupOf);
      if (why.empty()) break;
      if (first.empty()) first = why;
    }
    REQUIRE(why.empty(), "length " << len << ": no order of placing the subsequences explains the groups; " << first);
  }
  if (boundary) c.label("a member exactly at half the threshold");
  if (k.thr == 0) c.label("threshold 0");
  c.label(k.dist);
  if (several && joined) c.nontrivial = true;
}

PBT_MAIN("C11", run, 20, 0)
