// C10: grouping is a partition of all subsequences, with representatives from the groups.
#include "grp.hpp"

using namespace grp;

static void run(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  Case k = generate(s, scaled(s, s.chance(10) ? Shape{1, 12, 1, 14, 60} : Shape{1, 6, 1, 9, 50}));
  note(c, k);
  writeTable(c.path("d"), k.t);
  a.loadDataset("d", c.path("d"), " ");
  Table t = k.t;
  if (s.chance(20)) {
    bool flat = true;
    for (auto& r : t.rows) for (double d : r) if (d != t.rows[0][0]) flat = false;
    if (!flat) {
      a.normalizeDataset("d");
      c.label("normalized");
      for (size_t i = 0; i < t.rows.size(); i++)
        t.rows[i] = api::values(a.getTimeSeries("d", i, 0, t.rows[i].size()));
    }
  }
  // sometimes a dataset is grouped again over an earlier grouping
  int rounds = 1 + s.chance(25);
  for (int r = 0; r < rounds; r++) {
    if (r) {
      k.dist = ref::NAMES[s.below(3)];
      k.thr = threshold(s, t, k.dist);
      k.whole = s.chance(30);
      k.threads = s.range(1, 3);
      c.label("regrouped");
    }
    int n = a.groupDataset("d", k.thr, k.dist, k.threads, k.whole);
    Grouping g = api::exportGroups(a, "d", c.path("g"));
    REQUIRE(n == g.count, "grouping reports " << n << " groups, the export holds " << g.count);
    REQUIRE(g.items == (int)t.rows.size() && g.maxLen == t.maxLen() && g.distance == k.dist,
            "export header is " << g.items << " " << g.maxLen << " " << g.distance);
    int members = requirePartition(g, t, k.whole);
    auto info = a.getDatasetInfo("d");
    REQUIRE(info.isGrouped && info.distance == k.dist && info.threshold == k.thr,
            "dataset info after grouping: " << info.isGrouped << " " << info.distance << " " << info.threshold);

    // the sizes-only export
    a.saveGroupsOld("d", c.path("sz"), true);
    std::ifstream f(c.path("sz"));
    std::string header;
    std::getline(f, header);
    int from = -1, to = -1;
    std::string dn;
    f >> from >> to >> dn;
    REQUIRE(from == g.from && to == g.to && dn == g.distance, "sizes-only export has another header");
    size_t pos = 0;
    for (int len = from; len < to; len++) {
      int cnt = -1;
      f >> cnt;
      for (int i = 0; i < cnt; i++) {
        int sz = -1;
        f >> sz;
        REQUIRE((bool)f && pos < g.groups.size() && g.groups[pos].length == len &&
                  (int)g.groups[pos].members.size() == sz,
                "sizes-only export gives size " << sz << " for group " << i << " of length " << len);
        pos++;
      }
    }
    REQUIRE((bool)f || to <= from, "sizes-only export is incomplete");
    REQUIRE(pos == g.groups.size(), "sizes-only export lists " << pos << " of " << g.groups.size() << " groups");

    bool multi = false;
    for (auto& gr : g.groups) if (gr.members.size() > 1) multi = true;
    if (multi) c.label("groups with several members");
    if (k.whole) c.label("whole series");
    if (multi && members > (int)g.groups.size() && g.groups.size() > 1) c.nontrivial = true;
  }
}

PBT_MAIN("C10", run, 20, 0)
