// Generated sessions: several named datasets, each with its own history.
#ifndef SESSION_HPP
#define SESSION_HPP

#include "match.hpp"

#include <memory>

namespace session {

using namespace match;
using genex::GenexAPI;

struct Step
{
  enum Kind { NORMALIZE, GROUP, LOAD_GROUPS, LOAD_GROUPS_TEXT, PAA } kind = NORMALIZE;
  double thr = 0;
  std::string dist, file;
  int threads = 1, block = 1;
  bool whole = false;
};

struct Data
{
  std::string file;
  Table t;               // as loaded
  int maxRows = 0;
  bool names = false;
  std::vector<Step> steps;  // since it was loaded
  bool normalized = false, grouped = false;
  std::string dist;
  double thr = 0;
  int groups = 0;
  int block = 0;
};

inline void load(GenexAPI& a, const std::string& name, const Data& d)
{
  a.loadDataset(name, d.file, " ", d.maxRows, 0, d.names);
}

inline int apply(GenexAPI& a, const std::string& name, const Step& s)
{
  switch (s.kind) {
    case Step::NORMALIZE: a.normalizeDataset(name); return 0;
    case Step::GROUP: return a.groupDataset(name, s.thr, s.dist, s.threads, s.whole);
    case Step::LOAD_GROUPS: return a.loadGroups(name, s.file);
    case Step::LOAD_GROUPS_TEXT: return a.loadGroupsOld(name, s.file);
    case Step::PAA: a.preparePAA(name, s.block); return 0;
  }
  return 0;
}

inline std::string hex(double d)
{
  char b[40];
  snprintf(b, sizeof b, "%a", d);
  return b;
}

template <class F> std::string orRefused(F f)
{
  try { return f(); }
  catch (const genex::GenexException&) { return "refused"; }
}

inline std::string hexHits(const std::vector<Hit>& v)
{
  std::string o;
  for (auto& h : v)
    o += std::to_string(h.index) + "[" + std::to_string(h.start) + "," + std::to_string(h.end) + ")=" + hex(h.dist) + " ";
  return o;
}

inline std::string info(GenexAPI& a, const std::string& name)
{
  auto i = a.getDatasetInfo(name);
  return std::to_string(i.itemCount) + "x" + std::to_string(i.itemLength) + (i.isNormalized ? " normalized" : "") +
         (i.isGrouped ? " grouped" : "") + " " + i.distance + " " + hex(i.threshold);
}

// everything a user can see of one dataset
inline std::string observe(GenexAPI& a, const std::string& name, const std::string& scratch, bool search = true)
{
  std::string o = info(a, name) + "\n";
  auto i = a.getDatasetInfo(name);
  for (int r = 0; r < i.itemCount; r++) {
    o += a.getTimeSeriesName(name, r) + ":";
    int n = a.getTimeSeriesLength(name, r);
    genex::TimeSeries ts = a.getTimeSeries(name, r, -1, -1);
    o += "(" + std::to_string(n) + "," + std::to_string(ts.getLength()) + ")";
    for (int j = 0; j < ts.getLength(); j++) o += " " + hex(ts[j]);
    o += "\n";
  }
  o += orRefused([&] {
    a.saveGroupsOld(name, scratch, false);
    return readText(scratch);
  }) + "\n";
  if (!search) return o;
  for (int r = 0; r < i.itemCount && r < 2; r++) {
    o += orRefused([&] { return hexHits({api::hit(a.getBestMatch(name, name, r))}); }) + "\n";
    o += orRefused([&] { return hexHits(api::hits(a.getKBestMatches(2, 4, name, name, r))); }) + "\n";
    o += orRefused([&] { return hexHits(api::hits(a.getKBestMatchesPAA(3, name, name, r, -1, -1, "euclidean"))); }) + "\n";
  }
  return o;
}

// an independent instance that holds only this dataset
inline void rebuild(GenexAPI& a, const std::string& name, const Data& d)
{
  load(a, name, d);
  for (auto& s : d.steps) apply(a, name, s);
}

struct Session
{
  GenexAPI api;
  std::map<std::string, Data> sets;
  std::vector<std::pair<std::string, Table>> groupFiles;  // saved groups: path, data they were made for
  std::vector<bool> groupFileText;
  double ratio = 0.1;
  int files = 0;

  Session() { genex::setWarpingBandRatio(0.1); }
  ~Session() { genex::setWarpingBandRatio(0.1); }

  std::string newFile(Ctx& c) { return c.path("f" + std::to_string(files++)); }

  std::string freeName(Src& s)
  {
    static const std::vector<std::string> names = {"a", "b", "c", "data set", "B", "", "a-rather-long-name-for-a-dataset-that-no-short-buffer-could-hold", "\xc3\xa9/.\"x"};
    for (int t = 0; t < 8; t++) {
      std::string n = s.pick(names);
      if (!sets.count(n)) return n;
    }
    std::string n = "n";
    while (sets.count(n)) n += std::to_string(sets.size());
    return n;
  }
  std::string anyName(Src& s)
  {
    auto it = sets.begin();
    std::advance(it, s.below(sets.size()));
    return it->first;
  }

  Data make(Src& s, Ctx& c)
  {
    Data d;
    if (!sets.empty() && s.chance(35)) {
      // the same file once more
      const Data& o = sets[anyName(s)];
      d.file = o.file;
      d.t = o.t;
      d.names = o.names;
      d.maxRows = o.maxRows;
      return d;
    }
    Values m = valueMode(s, true);
    d.t = table(s, scaled(s, Shape{1, 3, 2, 5, 40}, 24, 30, 2), m);
    d.names = s.chance(30);
    if (d.names)
      for (size_t i = 0; i < d.t.rows.size(); i++) d.t.names.push_back(std::string(1, 'p' + s.below(4)) + std::to_string(i));
    d.file = newFile(c);
    writeTable(d.file, d.t);
    if (s.chance(15)) {
      d.maxRows = s.range(1, 3);
      if (d.maxRows < (int)d.t.rows.size()) {
        d.t.rows.resize(d.maxRows);
        if (d.names) d.t.names.resize(d.maxRows);
      }
    }
    return d;
  }

  std::string add(Src& s, Ctx& c)
  {
    std::string n = freeName(s);
    Data d = make(s, c);
    auto i = (session::load(api, n, d), api.getDatasetInfo(n));
    sets[n] = d;
    NOTE(c, "load '" << n << "' " << show(d.t));
    return n;
  }

  bool flat(const Data& d)
  {
    for (auto& r : d.t.rows) for (double x : r) if (x != d.t.rows[0][0]) return false;
    return true;
  }

  // one successful change of a dataset; false if none applies
  bool change(Src& s, Ctx& c, const std::string& n)
  {
    Data& d = sets[n];
    Step st;
    switch (s.weighted({40, 15, 20, 30})) {
      case 0:
        st.kind = Step::GROUP;
        st.dist = ref::NAMES[s.below(5)];
        st.thr = s.chance(80) ? threshold(s, d.t, st.dist) : s.unit();
        st.threads = s.range(1, 2);
        st.whole = s.chance(20);
        d.groups = apply(api, n, st);
        d.grouped = true;
        d.dist = st.dist;
        d.thr = st.thr;
        NOTE(c, "group '" << n << "' " << st.dist << " " << num(st.thr) << (st.whole ? " whole" : "") << " threads " << st.threads);
        break;
      case 1:
        st.kind = Step::NORMALIZE;
        apply(api, n, st);
        d.normalized = true;
        NOTE(c, "normalize '" << n << "'");
        break;
      case 2:
        st.kind = Step::PAA;
        st.block = s.range(1, 4);
        apply(api, n, st);
        d.block = st.block;
        NOTE(c, "preparePAA '" << n << "' " << st.block);
        break;
      default: {
        bool saveFirst = d.grouped && s.chance(40);
        size_t shift = s.below(groupFiles.size());
        // load groups made for data of the same shape
        for (size_t i = 0; i < groupFiles.size() && !saveFirst; i++) {
          size_t j = (i + shift) % groupFiles.size();
          bool same = groupFiles[j].second.rows.size() == d.t.rows.size();
          for (size_t r = 0; same && r < d.t.rows.size(); r++)
            if (d.t.rows[r].size() != groupFiles[j].second.rows[r].size()) same = false;
          if (!same) continue;
          st.kind = groupFileText[j] ? Step::LOAD_GROUPS_TEXT : Step::LOAD_GROUPS;
          st.file = groupFiles[j].first;
          d.groups = apply(api, n, st);
          d.grouped = true;
          auto in = api.getDatasetInfo(n);
          d.dist = in.distance;
          d.thr = in.threshold;
          d.steps.push_back(st);
          c.label("groups loaded");
          NOTE(c, "load groups of '" << n << "' from " << st.file);
          return true;
        }
        if (d.grouped) {
          // save the groups for later
          std::string f = newFile(c);
          bool text = s.chance(40);
          if (text) api.saveGroupsOld(n, f, false); else api.saveGroups(n, f);
          groupFiles.push_back(std::make_pair(f, d.t));
          groupFileText.push_back(text);
          NOTE(c, "save groups of '" << n << "' to " << f);
          return true;
        }
        return false;
      }
    }
    d.steps.push_back(st);
    return true;
  }

  // the listing agrees with what was done
  void requireListing()
  {
    REQUIRE(api.getDatasetCount() == (int)sets.size(), "there are " << sets.size() << " datasets, the count is "
                                                                    << api.getDatasetCount());
    auto all = api.getAllDatasetInfo();
    std::set<std::string> names;
    for (auto& i : all) {
      REQUIRE(names.insert(i.name).second, "dataset '" << i.name << "' is listed twice");
      REQUIRE(sets.count(i.name), "dataset '" << i.name << "' is listed but was not loaded");
      const Data& d = sets[i.name];
      REQUIRE(i.itemCount == (int)d.t.rows.size() && i.itemLength == d.t.maxLen() && i.isNormalized == d.normalized &&
                i.isGrouped == d.grouped && i.distance == d.dist && i.threshold == d.thr,
              "dataset '" << i.name << "' is described as " << i.itemCount << "x" << i.itemLength << " normalized="
                          << i.isNormalized << " grouped=" << i.isGrouped << " '" << i.distance << "' " << i.threshold);
    }
    REQUIRE(names.size() == sets.size(), "only " << names.size() << " of " << sets.size() << " datasets are listed");
  }

  std::string observeAll(Ctx& c, bool search = true)
  {
    std::string o = std::to_string(api.getDatasetCount()) + "\n";
    for (auto& i : api.getAllDatasetInfo()) o += i.name + ": " + info(api, i.name) + "\n";
    for (auto& e : sets) o += "'" + e.first + "' " + observe(api, e.first, c.path("obs"), search);
    return o;
  }
};

} // namespace session
#endif
