// Generated datasets with a grouping.
#ifndef GRP_HPP
#define GRP_HPP

#include "api.hpp"

namespace grp {

using namespace gen;
using api::Group;
using api::Grouping;

struct Case
{
  Table t;
  std::string dist;
  double thr = 0;
  int threads = 1;
  bool whole = false;
  bool exactArithmetic = false;  // distances of this case are computed without rounding
};

// a threshold near distances that really occur, sometimes exactly on one of them
inline double threshold(Src& s, const Table& t, const std::string& dist)
{
  std::vector<double> ds;
  for (int k = 0; k < 3; k++) {
    const Vec& a = t.rows[s.below(t.rows.size())];
    const Vec& b = t.rows[s.below(t.rows.size())];
    int l = std::min(a.size(), b.size());
    if (l < 1) continue;
    int len = s.range(1, l);
    int p = s.below(a.size() - len + 1), q = s.below(b.size() - len + 1);
    double d = ref::pairwise(dist, ref::slice(a, p, p + len), ref::slice(b, q, q + len));
    if (std::isfinite(d)) ds.push_back(d);
  }
  double base = ds.empty() ? 0.1 : *std::max_element(ds.begin(), ds.end());
  switch (s.below(6)) {
    case 0: return 0;
    case 1: return 2 * (ds.empty() ? 0.25 : ds[0]);
    case 2: return 2 * base * s.unit();
    case 3: return base;
    case 4: return base * 3;
    default: return 2 * base * 0.5;
  }
}

// Many different short rows, later ones often repeating any of the earlier ones, so that a length has
// dozens of groups and old groups still receive members.
inline Table manyRows(Src& s, bool positive, const Shape& sh)
{
  Values v;
  v.mode = V_UNIT;
  v.positive = positive;
  Table t;
  int n = s.range(20, 140), len = std::max(2, sh.minLen) + s.below(2);
  int early = s.chance(50) ? 3 : n;
  for (int i = 0; i < n; i++)
    t.rows.push_back(i > 0 && s.chance(15) ? t.rows[s.below(std::min(i, early))] : series(s, v, len));
  return t;
}

inline Case generate(Src& s, const Shape& sh, bool allDistances = true)
{
  Case c;
  static const int w[] = {40, 20, 20, 10, 10};
  c.dist = ref::NAMES[allDistances ? s.weighted(std::vector<int>(w, w + 5)) : (int)s.weighted({50, 25, 25})];
  bool positive = c.dist == "cosine" || c.dist == "sorensen";
  Values v = valueMode(s, positive);
  c.t = table(s, sh, v);
  bool many = s.below(1000) >= 990;
  if (many) c.t = manyRows(s, positive, sh);
  c.thr = threshold(s, c.t, c.dist);
  if (many && s.chance(80)) c.thr *= s.chance(50) ? 0 : 0.01;
  c.threads = s.weighted({60, 20, 10, 10}) + 1;
  if (s.below(1000) >= 995) c.threads = s.range(5, 24);
  c.whole = s.chance(15);
  c.exactArithmetic = !many && c.dist == "chebyshev" && (v.mode == V_TINY || v.mode == V_DYADIC);
  return c;
}

inline void note(Ctx& c, const Case& k)
{
  NOTE(c, k.dist << " threshold=" << num(k.thr) << " threads=" << k.threads << (k.whole ? " whole series" : "")
            << " data " << show(k.t));
}

inline Vec member(const Table& t, const std::pair<int, int>& m, int len)
{
  return ref::slice(t.rows[m.first], m.second, m.second + len);
}

// the subsequences a grouping has to cover
inline std::set<std::vector<int>> expected(const Table& t, bool whole)
{
  std::set<std::vector<int>> r;
  for (int i = 0; i < (int)t.rows.size(); i++) {
    int n = t.rows[i].size();
    if (whole) {
      if (n == t.maxLen()) r.insert({i, 0, n});
      continue;
    }
    for (int a = 0; a < n; a++)
      for (int b = a + 2; b <= n; b++) r.insert({i, a, b});
  }
  return r;
}

// Checks that the groups are a partition with representatives; returns number of members.
inline int requirePartition(const Grouping& g, const Table& t, bool whole, bool checkReps = true)
{
  auto want = expected(t, whole);
  std::set<std::vector<int>> seen;
  for (size_t k = 0; k < g.groups.size(); k++) {
    const Group& gr = g.groups[k];
    REQUIRE(!gr.members.empty(), "a group of length " << gr.length << " has no members");
    bool own = false;
    for (auto& m : gr.members) {
      std::vector<int> key{m.first, m.second, m.second + gr.length};
      REQUIRE(want.count(key), "group of length " << gr.length << " holds (" << m.first << "," << m.second
                                                  << ") which is not such a subsequence of the data");
      REQUIRE(seen.insert(key).second, "subsequence " << m.first << "[" << m.second << ","
                                                      << m.second + gr.length << ") is in two groups");
      if (!own && api::sameVec(gr.rep, member(t, m, gr.length), 1e-12)) own = true;
    }
    REQUIRE(own || !checkReps, "the representative " << show(gr.rep) << " of a group of length " << gr.length
                                       << " is none of its members");
  }
  REQUIRE(seen.size() == want.size(), "only " << seen.size() << " of " << want.size() << " subsequences are grouped");
  return (int)seen.size();
}

} // namespace grp
#endif
