// Helpers on top of the public GenexAPI.
#ifndef API_HPP
#define API_HPP

#include "clock.hpp"
#include "gen.hpp"

#include "GenexAPI.hpp"
#include "Exception.hpp"

namespace api {

using gen::Table;
using ref::Vec;

// true if the call fails with the library's own error
template <class F> bool refused(F f)
{
  try { f(); }
  catch (const genex::GenexException&) { return true; }
  return false;
}

inline Vec values(const genex::TimeSeries& t)
{
  Vec v;
  for (int i = 0; i < t.getLength(); i++) v.push_back(t[i]);
  return v;
}

struct Group
{
  int length;
  Vec rep;
  std::vector<std::pair<int, int>> members;
};

struct Grouping
{
  int count = 0;      // total number of groups
  double threshold = 0;
  int items = 0, maxLen = 0, from = 0, to = 0;
  std::string distance;
  std::vector<Group> groups;
};

// Parses the documented text export.  The upper length is exclusive in the file.
inline Grouping parseGroups(const std::string& path)
{
  std::ifstream f(path);
  Grouping g;
  int version = 0;
  f >> version >> g.threshold >> g.items >> g.maxLen >> g.from >> g.to >> g.distance;
  REQUIRE((bool)f, "group export has no complete header");
  REQUIRE(g.from >= 0 && g.to <= g.maxLen + 1, "group export covers lengths " << g.from << ".." << g.to);
  for (int len = g.from; len < g.to; len++) {
    int n = -1;
    f >> n;
    REQUIRE((bool)f && n >= 0, "group export: bad group count at length " << len);
    for (int k = 0; k < n; k++) {
      Group gr;
      gr.length = len;
      for (int i = 0; i < len; i++) { double d; f >> d; gr.rep.push_back(d); }
      int cnt = -1;
      f >> cnt;
      REQUIRE((bool)f && cnt >= 0, "group export: bad member count at length " << len);
      for (int i = 0; i < cnt; i++) {
        int a, b;
        f >> a >> b;
        REQUIRE((bool)f, "group export ends inside the members of a group of length " << len);
        gr.members.push_back(std::make_pair(a, b));
      }
      g.groups.push_back(gr);
    }
    g.count += n;
  }
  std::string rest;
  f >> rest;
  REQUIRE(rest.empty(), "group export has trailing text " << rest);
  return g;
}

inline Grouping exportGroups(genex::GenexAPI& a, const std::string& name, const std::string& path)
{
  a.saveGroupsOld(name, path, false);
  return parseGroups(path);
}

inline bool sameVec(const Vec& a, const Vec& b, double tol = 1e-9)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!ref::close(a[i], b[i], tol)) return false;
  return true;
}

// canonical form: groups as sets of members, independent of numbering and listing order
inline std::string canonical(const Grouping& g, bool withReps = true)
{
  std::vector<std::string> v;
  for (auto& gr : g.groups) {
    auto m = gr.members;
    std::sort(m.begin(), m.end());
    std::ostringstream o;
    o << gr.length << ":";
    for (auto& x : m) o << x.first << "," << x.second << " ";
    if (withReps) {
      o << "rep";
      for (double d : gr.rep) { char b[40]; snprintf(b, sizeof b, " %.12g", d); o << b; }
    }
    v.push_back(o.str());
  }
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto& x : v) r += x + "\n";
  return r;
}

struct Hit
{
  int index, start, end;
  double dist;
};
inline Hit hit(const genex::candidate_time_series_t& c)
{
  return Hit{c.data.getIndex(), c.data.getStart(), c.data.getEnd(), c.dist};
}
inline std::vector<Hit> hits(const std::vector<genex::candidate_time_series_t>& v)
{
  std::vector<Hit> r;
  for (auto& c : v) r.push_back(hit(c));
  return r;
}
inline bool operator==(const Hit& a, const Hit& b)
{
  return a.index == b.index && a.start == b.start && a.end == b.end &&
         (a.dist == b.dist || (std::isnan(a.dist) && std::isnan(b.dist)));
}
inline std::string show(const Hit& h)
{
  std::ostringstream o;
  o.precision(12);
  o << h.index << "[" << h.start << "," << h.end << ")=" << h.dist;
  return o.str();
}
inline std::string show(const std::vector<Hit>& v)
{
  std::string o;
  for (auto& h : v) o += show(h) + " ";
  return o;
}

// every hit is a real subsequence of the table, of length >= 2, and none is repeated
inline void requireRealHits(const std::vector<Hit>& v, const Table& t)
{
  std::set<std::vector<int>> seen;
  for (auto& h : v) {
    REQUIRE(h.index >= 0 && h.index < (int)t.rows.size() && h.start >= 0 && h.end - h.start >= 2 &&
            h.end <= (int)t.rows[h.index].size(),
            "result " << show(h) << " is not a subsequence of the target");
    REQUIRE(seen.insert(std::vector<int>{h.index, h.start, h.end}).second,
            "result " << show(h) << " is reported twice");
  }
}

inline void requireSorted(const std::vector<Hit>& v)
{
  for (size_t i = 1; i < v.size(); i++)
    REQUIRE(ref::leq(v[i - 1].dist, v[i].dist, 1e-8),
            "results are not in non-decreasing order: " << show(v));
}

} // namespace api
#endif
