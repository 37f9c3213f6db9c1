// No numbers make a request crash, hang or lose track of the data.
#include "match.hpp"

using namespace pbt;
using namespace match;
using genex::GenexAPI;

static double special(Src& s, int mode)
{
  static const double inf = std::numeric_limits<double>::infinity();
  switch (mode) {
    case 0: {  // nan and infinities among ordinary numbers
      static const double v[] = {0, 1, 2, 3, 0.5, inf, -inf, std::numeric_limits<double>::quiet_NaN(), -1};
      return v[s.weighted({4, 4, 3, 3, 3, 1, 1, 2, 2})];
    }
    case 1: {  // squares and sums overflow
      static const double v[] = {1.7e308, -1.7e308, 1e200, -1e200, 1e155, 1, 0, 9e307};
      return v[s.below(8)];
    }
    case 2: {  // differences around and below the tolerance of comparisons
      return s.below(30) * 1e-10 * (s.chance(20) ? 5 : 1);
    }
    case 3: return 1 + s.below(40) * 2.5e-10;
    case 4: {  // squares underflow
      static const double v[] = {5e-324, 1e-308, 1e-200, -1e-200, 0, -0.0, 1e-160, 1};
      return v[s.below(8)];
    }
    case 5: return s.chance(50) ? std::numeric_limits<double>::quiet_NaN() : s.range(0, 2);
    case 6: return s.range(-2, 2);
    default: return s.unit() * std::pow(10, s.range(-30, 30)) * (s.chance(30) ? -1 : 1);
  }
}

static double anyNumber(Src& s)
{
  static const double v[] = {0.1, 0, 0.5, 1, 1e-9, 1e9, 1e300, -0.5, std::numeric_limits<double>::infinity(),
                             -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
  return s.chance(30) ? s.unit() : v[s.below(11)];
}

static Table extreme(Src& s)
{
  int mode = s.below(8);
  Table t;
  int n = s.range(1, 4), len = s.range(1, s.chance(30) ? 14 : 7);
  bool uneven = s.chance(40);
  for (int i = 0; i < n; i++) {
    int l = uneven ? s.range(s.chance(10) ? 0 : 1, len) : len;
    Vec r;
    bool copy = i > 0 && s.chance(25);
    for (int k = 0; k < l; k++)
      r.push_back(copy && k < (int)t.rows[i - 1].size() && s.chance(85) ? t.rows[i - 1][k] : special(s, mode));
    t.rows.push_back(r);
  }
  return t;
}

// the hits are different subsequences of the target
static void requireHits(const std::vector<Hit>& v, const Table& t, size_t most, const char* what)
{
  REQUIRE(v.size() <= most, what << " gave " << v.size() << " results, asked for " << most);
  api::requireRealHits(v, t);
}

// Distances by the band that is in force before anybody sets one.
static std::vector<double> initialBand(Ctx& c)
{
  Table t;
  for (int n : {40, 36, 35, 30, 27, 26}) t.rows.push_back(Vec(n, 1.0));
  writeTable(c.path("band"), t);
  GenexAPI a;
  a.loadDataset("band", c.path("band"), " ");
  std::vector<double> d;
  for (int i : {0, 3})
    for (int j = 1; j < 3; j++) d.push_back(a.distanceBetween("band", i, -1, -1, "band", i + j, -1, -1, "euclidean_dtw"));
  return d;
}

static void prop(Src& s, Ctx& c)
{
  static const std::vector<double> initial = initialBand(c);
  REQUIRE(initial[0] == 0 && std::isinf(initial[1]) && initial[2] == 0 && std::isinf(initial[3]),
          "constant series of lengths 40/36, 40/35, 30/27, 30/26 are " << show(initial) << " apart before a band is set");
  GenexAPI a;
  double given = -1;
  Ratio ratio(s.chance(70) ? s.unit() : s.chance(70) ? 0.1 : s.unit() * 3);
  if (s.chance(20)) {
    double r = anyNumber(s);
    NOTE(c, "band ratio " << r);
    bool refused = api::refused([&] { a.setWarpingBandRatio(r); });
    REQUIRE(refused == !(r >= 0), "band ratio " << r << (refused ? " was refused" : " was accepted"));
    c.label(refused ? "ratio refused" : "unusual ratio");
    if (!refused) given = r;
  }
  Table t = extreme(s), q = extreme(s);
  if (s.chance(30)) q = t;
  writeTable(c.path("d"), t);
  writeTable(c.path("q"), q);
  NOTE(c, "data " << show(t) << "query data " << show(q));
  a.loadDataset("d", c.path("d"), " ");
  a.loadDataset("q", c.path("q"), " ");
  if (given > 1) {
    std::string dist = ref::NAMES[s.below(5)];
    int qi = s.below(q.rows.size()), ti = s.below(t.rows.size());
    auto answers = [&]() {
      std::vector<double> o;
      api::refused([&] { o.push_back(a.distanceBetween("q", qi, -1, -1, "d", ti, -1, -1, dist + "_dtw")); });
      api::refused([&] { for (auto& h : a.getKBestMatchesBruteForce(4, "d", "q", qi, -1, -1, dist)) o.push_back(h.dist); });
      return o;
    };
    std::vector<double> above = answers();
    a.setWarpingBandRatio(1);
    std::vector<double> one = answers();
    a.setWarpingBandRatio(given);
    bool same = above.size() == one.size();
    for (size_t i = 0; same && i < one.size(); i++)
      same = above[i] == one[i] || (std::isnan(above[i]) && std::isnan(one[i]));
    REQUIRE(same, "band ratio " << given << " gives " << show(above) << ", ratio 1 gives " << show(one));
    c.label("ratio above one");
  }
  long all = t.subsequences();
  bool grouped = false, prepared = false;
  int answered = 0;
  for (int n = s.range(2, 10); n > 0; n--) {
    int qi = s.below(q.rows.size());
    int qn = q.rows[qi].size(), st = -1, en = -1;
    if (s.chance(60) && qn > 0) {
      st = s.below(qn);
      en = s.range(st + 1, qn);
    }
    std::string dist = ref::NAMES[s.below(5)];
    int k = s.weighted({3, 2}) == 0 ? s.range(1, 6) : s.range(1, 120);
    switch (s.weighted({2, 6, 5, 5, 6, 2, 3, 3, 3, 2})) {
      case 0: {
        NOTE(c, "normalize");
        auto mm = a.normalizeDataset("d");
        (void)mm;
        break;
      }
      case 1: {
        double thr = anyNumber(s);
        bool whole = t.maxLen() >= 2 && s.chance(20);
        int threads = s.range(1, 3);
        NOTE(c, "group " << dist << " " << thr << (whole ? " whole" : "") << " threads " << threads);
        int count = 0;
        if (api::refused([&] { count = a.groupDataset("d", thr, dist, threads, whole); })) break;
        grouped = true;
        c.label("grouped");
        a.saveGroupsOld("d", c.path("sizes"), true);
        std::ifstream f(c.path("sizes"));
        std::string version, threshold, name;
        int items, maxLen, from, to;
        f >> version >> threshold >> items >> maxLen >> from >> to >> name;
        long groups = 0, members = 0;
        for (int l = from; l < to; l++) {
          long g = 0;
          f >> g;
          groups += g;
          for (long i = 0; i < g; i++) {
            long m = 0;
            f >> m;
            REQUIRE(m > 0, "a group of length " << l << " has " << m << " members");
            members += m;
          }
        }
        REQUIRE((bool)f, "incomplete list of group sizes");
        long want = 0;
        if (whole) {
          for (auto& r : t.rows) want += (int)r.size() == t.maxLen();
        }
        else want = all;
        REQUIRE(groups == count, "grouping reports " << count << " groups, there are " << groups);
        REQUIRE(members == want, "the groups have " << members << " members, there are " << want << " subsequences");
        break;
      }
      case 2:
        NOTE(c, "best match of " << qi << " " << st << " " << en);
        if (!api::refused([&] { requireHits({api::hit(a.getBestMatch("d", "q", qi, st, en))}, t, 1, "best match"); })) {
          c.label("best match");
          answered++;
        }
        break;
      case 3: {
        int ke = k + s.range(0, 20);
        NOTE(c, k << " of " << ke << " best matches of " << qi << " " << st << " " << en);
        if (!api::refused([&] { requireHits(api::hits(a.getKBestMatches(k, ke, "d", "q", qi, st, en)), t, k, "k best matches"); })) {
          c.label("k best");
          answered++;
        }
        break;
      }
      case 4: {
        NOTE(c, k << " brute force of " << qi << " " << st << " " << en << " " << dist);
        std::vector<Hit> v;
        if (!api::refused([&] { v = api::hits(a.getKBestMatchesBruteForce(k, "d", "q", qi, st, en, dist)); })) {
          requireHits(v, t, k, "brute force");
          REQUIRE((long)v.size() == std::min((long)k, all), "brute force gave " << v.size() << " of " << all << " for k=" << k);
          c.label("brute force");
          answered++;
          if (v.size() > 16) c.label("long result list");
        }
        break;
      }
      case 5: {
        int b = s.range(1, 4);
        NOTE(c, "prepare " << b);
        a.preparePAA("d", b);
        a.preparePAA("q", b);
        prepared = true;
        break;
      }
      case 6: {
        NOTE(c, k << " PAA " << qi << " " << st << " " << en << " " << dist);
        std::vector<Hit> v;
        if (!api::refused([&] { v = api::hits(a.getKBestMatchesPAA(k, "d", "q", qi, st, en, dist)); })) {
          REQUIRE(prepared, "an unprepared dataset answered");
          requireHits(v, t, k, "PAA search");
          REQUIRE((long)v.size() == std::min((long)k, all), "PAA search gave " << v.size() << " of " << all << " for k=" << k);
          c.label("PAA");
          answered++;
        }
        break;
      }
      case 7: {
        int i2 = s.below(t.rows.size());
        std::string name = dist + (s.chance(60) ? "_dtw" : "");
        NOTE(c, "distance " << name << " of " << qi << " " << st << " " << en << " and row " << i2);
        api::refused([&] { a.distanceBetween("q", qi, st, en, "d", i2, -1, -1, name); answered++; });
        break;
      }
      case 8: {
        int i2 = s.below(t.rows.size());
        NOTE(c, "matching " << dist << " of " << qi << " " << st << " " << en << " and row " << i2);
        api::refused([&] {
          auto v = a.matchingBetween("q", qi, st, en, "d", i2, -1, -1, dist + "_dtw");
          int l1 = st < 0 ? qn : en - st, l2 = t.rows[i2].size();
          for (size_t k = 0; k < v.size(); k++) {
            REQUIRE(v[k].first >= 0 && v[k].first < l1 && v[k].second >= 0 && v[k].second < l2,
                    "matching names the point (" << v[k].first << "," << v[k].second << ")");
          }
          answered++;
          c.label("matching");
        });
        break;
      }
      default: {
        if (!grouped) break;
        bool text = s.chance(50);
        NOTE(c, "save and load groups" << (text ? " as text" : ""));
        std::string f = c.path("g");
        api::refused([&] {
          if (text) {
            a.saveGroupsOld("d", f, false);
            a.loadGroupsOld("d", f);
          }
          else {
            a.saveGroups("d", f);
            a.loadGroups("d", f);
          }
          c.label("groups loaded");
        });
        break;
      }
    }
  }
  c.nontrivial = answered >= 2 && all >= 3;
}

PBT_MAIN("C28", prop, 60, 0)
