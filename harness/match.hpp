// Oracles for similarity search.
#ifndef MATCH_HPP
#define MATCH_HPP

#include "grp.hpp"

#include "distance/Distance.hpp"

namespace match {

using namespace grp;
using api::Hit;

struct Cand
{
  int index, start, end;
  double dist;
};

// the library's own value for a pair, used where several warping paths tie (cosine, sorensen)
inline bool ownDistance(const std::string& dist, const Vec& q, const Vec& x, double got)
{
  genex::dist_t f = genex::getDistanceFromName(dist + "_dtw");
  Vec a = q, b = x;
  genex::TimeSeries ta(a.data(), 0, 0, (int)a.size()), tb(b.data(), 0, 0, (int)b.size());
  return ref::close(f(ta, tb, ref::INFTY, genex::gNoMatching), got) ||
         ref::close(f(tb, ta, ref::INFTY, genex::gNoMatching), got);
}

inline Vec sub(const Table& t, const Hit& h) { return ref::slice(t.rows[h.index], h.start, h.end); }

inline double trueDistance(const std::string& dist, const Vec& q, const Vec& x, double ratio)
{
  return ref::warped(dist, q, x, ratio);
}

// every hit reports its own distance
inline void requireTrueDistances(const std::vector<Hit>& v, const Table& t, const std::string& dist, const Vec& q,
                                 double ratio)
{
  for (auto& h : v) {
    if (ref::exactName(dist)) {
      double d = ref::warped(dist, q, sub(t, h), ratio);
      REQUIRE(ref::close(d, h.dist), "result " << api::show(h) << " reports distance " << h.dist << ", it is " << d);
    }
    else {
      REQUIRE(ownDistance(dist, q, sub(t, h), h.dist),
              "result " << api::show(h) << " does not report the distance of that subsequence");
    }
  }
}

// the sorted hits are the k nearest of all candidates (candidates' distances are exact)
inline void requireNearest(const std::vector<Hit>& v, std::vector<double> all, size_t k)
{
  std::sort(all.begin(), all.end());
  size_t want = std::min(k, all.size());
  REQUIRE(v.size() == want, "asked for " << k << " of " << all.size() << " candidates, got " << v.size());
  for (size_t i = 0; i < want; i++)
    REQUIRE(ref::close(v[i].dist, all[i], 1e-8),
            "result " << i << " has distance " << v[i].dist << ", the " << i << "-th nearest is at " << all[i] << "; got "
                      << api::show(v));
}

struct Query
{
  Table t;          // dataset the query is taken from
  bool own = false; // it is the target itself
  int index = 0, start = 0, end = 0;
  bool wholeRow = false;
  Vec v;
};

// A query from the target or from another dataset; lengths may exceed those of the target.
inline Query query(Src& s, const Table& target, bool positive, int maxLen, int minLen = 1)
{
  Query q;
  q.own = s.chance(45);
  if (q.own) {
    q.t = target;
  }
  else {
    Values m = valueMode(s, positive);
    q.t = table(s, Shape{1, 2, s.chance(10) ? std::max(minLen, 1) : 2, maxLen, 50}, m);
    // near copies of target data make close matches likely
    if (s.chance(60)) {
      const Vec& o = target.rows[s.below(target.rows.size())];
      Vec& r = q.t.rows[0];
      for (size_t i = 0; i < r.size() && i < o.size(); i++) if (s.chance(80)) r[i] = o[i];
    }
  }
  q.index = s.below(q.t.rows.size());
  int n = q.t.rows[q.index].size();
  if (n < minLen) throw pbt::Discard();
  if (s.chance(30)) {
    q.wholeRow = true;
    q.start = 0;
    q.end = n;
  }
  else {
    int len = s.range(s.chance(8) ? minLen : std::min(2, n), n);
    q.start = s.range(0, n - len);
    q.end = q.start + len;
  }
  q.v = ref::slice(q.t.rows[q.index], q.start, q.end);
  return q;
}

inline void load(genex::GenexAPI& a, Ctx& c, const Table& target, const Query& q, std::string& qname)
{
  writeTable(c.path("d"), target);
  a.loadDataset("d", c.path("d"), " ");
  qname = "d";
  if (!q.own) {
    writeTable(c.path("q"), q.t);
    a.loadDataset("q", c.path("q"), " ");
    qname = "q";
  }
}

inline void noteQuery(Ctx& c, const Query& q, double ratio)
{
  NOTE(c, "query " << (q.own ? "from the target" : "from other data") << ", row " << q.index
                   << (q.wholeRow ? " whole" : "") << " [" << q.start << "," << q.end << ") " << show(q.v)
                   << " band ratio " << num(ratio));
}

struct Ratio
{
  Ratio(double r) { genex::setWarpingBandRatio(r); }
  ~Ratio() { genex::setWarpingBandRatio(0.1); }
};

} // namespace match
#endif
