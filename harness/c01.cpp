// Loading a text dataset reproduces the file.
#include "api.hpp"
#include "GroupableTimeSeriesSet.hpp"

using namespace pbt;

struct Layout
{
  std::string text;
  std::string seps;
  int limit, startCol;
  bool names;
  // expectation
  bool bad = false;
  std::vector<ref::Vec> rows;
  std::vector<std::string> rowNames;
  int maxLen = 0;
};

static std::string token(Src& s, double& v)
{
  switch (s.below(9)) {
    case 0: v = s.range(-50, 50); { std::ostringstream o; o << (long)v; return o.str(); }
    case 1: { int a = s.range(0, 9999); v = a / 100.0; char b[32]; snprintf(b, 32, "%d.%02d", a / 100, a % 100);
              v = strtod(b, nullptr); return b; }
    case 2: v = s.unit() * 2 - 1; return gen::num(v);
    case 3: { char b[40]; snprintf(b, 40, "%.6e", (s.unit() - 0.5) * std::pow(10, s.range(-300, 300)));
              v = strtod(b, nullptr); return b; }
    case 4: v = 0; return s.chance(50) ? "0" : "0.000";
    case 5: v = 0.5; return ".5";
    case 6: v = 3; return s.chance(50) ? "+3" : "3.";
    case 7: v = -250; return "-2.5E2";
    default: { char b[40]; snprintf(b, 40, "%de-%d", s.range(1, 9), s.range(305, 322)); v = strtod(b, nullptr); return b; }
  }
}

static const char* BAD[] = {"abc", "x1", "--1", "1..2", "12abc", "1.5e", "1e999", "_", "0.5x", "1:2", "e5", "-", "."};

static Layout layout(Src& s)
{
  static const char* sepSets[] = {" ", ",", "\t", ";", ", ", " \t", ",;|", "|"};
  Layout l;
  l.seps = sepSets[s.below(8)];
  l.startCol = s.weighted({5, 2, 1, 1});
  l.names = s.chance(40);
  int big = s.below(1000) >= 997 ? 1 + s.below(2) : 0;  // many rows, or long ones
  int longest = big == 2 ? 2000 : 10;
  int n = s.range(0, big == 1 ? 400 : 8);
  l.limit = s.weighted({5, 3}) == 0 ? s.range(-1, 0) : s.range(1, std::max(10, n));
  int loaded = l.limit <= 0 ? n : std::min(n, l.limit);
  int even = s.range(0, longest);
  bool uneven = s.chance(60);
  bool crlf = s.chance(15);
  bool wantBad = s.chance(15) && n > 0;
  int badRow = wantBad ? (int)s.below(n) : -1;
  auto sep = [&]() {
    std::string o;
    int k = s.chance(15) ? s.range(2, 3) : 1;
    for (int i = 0; i < k; i++) o += l.seps[s.below(l.seps.size())];
    return o;
  };
  for (int i = 0; i < n; i++) {
    int len = uneven ? (s.chance(10) ? 0 : s.range(0, longest)) : even;
    int skip = l.startCol;
    bool hasName = l.names;
    bool cut = false;
    if (s.chance(6)) { skip = s.range(0, l.startCol); cut = skip < l.startCol; hasName = hasName && !cut; len = 0;
                       if (s.chance(50)) hasName = false; }
    std::string line;
    bool first = true;
    if (s.chance(8)) line += sep();  // leading separators
    auto put = [&](const std::string& t) { if (!first) line += sep(); first = false; line += t; };
    for (int k = 0; k < skip; k++) { double v; put(s.chance(70) ? token(s, v) : s.chance(50) ? "skipme" : "#"); }
    std::string name;
    if (hasName) {
      static const char* nm[] = {"a", "row", "7", "-1", "x_y", "Name", "1.5", "Zed-9"};
      name = nm[s.below(8)];
      if (s.chance(50)) name += std::to_string(i);
      if (s.below(1000) >= 990) name.append(s.range(10, 3000), 'n');
      put(name);
    }
    ref::Vec row;
    int badAt = i == badRow && len > 0 && hasName == l.names && !cut ? (int)s.below(len) : -1;
    for (int k = 0; k < len; k++) {
      double v = 0;
      std::string t = token(s, v);
      if (k == badAt) {
        t = BAD[s.below(sizeof BAD / sizeof *BAD)];
        if (i < loaded) l.bad = true;
      }
      // blanks around a number are not part of it when blank is no separator
      if (l.seps.find(' ') == std::string::npos && s.chance(5)) t = " " + t;
      put(t);
      row.push_back(v);
    }
    if (s.chance(15)) line += sep();  // trailing separator, as the library's own files have
    else if (crlf && !row.empty()) line += "\r";
    l.text += line;
    if (i + 1 < n || s.chance(85) || line.empty()) l.text += "\n";
    if (i < loaded) {
      l.rows.push_back(row);
      l.rowNames.push_back(hasName ? name : std::to_string(i));
      l.maxLen = std::max(l.maxLen, (int)row.size());
    }
  }
  return l;
}

static void compare(const Layout& l, const std::function<int()>& count, const std::function<int()>& maxLen,
                    const std::function<int(int)>& len, const std::function<std::string(int)>& name,
                    const std::function<genex::TimeSeries(int)>& get)
{
  REQUIRE(count() == (int)l.rows.size(), "loaded " << count() << " rows, the file has " << l.rows.size());
  REQUIRE(maxLen() == l.maxLen, "reported item length " << maxLen() << ", longest loaded row has " << l.maxLen);
  for (size_t i = 0; i < l.rows.size(); i++) {
    REQUIRE(len(i) == (int)l.rows[i].size(), "row " << i << " has length " << len(i) << ", expected " << l.rows[i].size());
    REQUIRE(name(i) == l.rowNames[i], "row " << i << " is named '" << name(i) << "', expected '" << l.rowNames[i] << "'");
    genex::TimeSeries t = get(i);
    REQUIRE(t.getLength() == (int)l.rows[i].size(), "row " << i << " reads with length " << t.getLength());
    REQUIRE(t.getIndex() == (int)i && t.getStart() == 0, "row " << i << " reads as row " << t.getIndex() << " from " << t.getStart());
    for (size_t k = 0; k < l.rows[i].size(); k++)
      REQUIRE(t[k] == l.rows[i][k], "row " << i << " value " << k << " is " << t[k] << ", the file says " << l.rows[i][k]);
  }
}

static void prop(Src& s, Ctx& c)
{
  Layout l = layout(s);
  NOTE(c, "separators '" << l.seps << "' limit " << l.limit << " first column " << l.startCol << " names " << l.names
       << (l.bad ? " (bad token)" : "") << "\n" << l.text);
  gen::writeText(c.path("f"), l.text);
  {
    genex::GenexAPI a;
    if (l.bad) {
      REQUIRE(api::refused([&] { a.loadDataset("d", c.path("f"), l.seps, l.limit, l.startCol, l.names); }),
              "text that is not a number is accepted");
      REQUIRE(a.getDatasetCount() == 0, "a refused file is listed");
    }
    else {
      genex::dataset_metadata_t m = a.loadDataset("d", c.path("f"), l.seps, l.limit, l.startCol, l.names);
      REQUIRE(m.name == "d" && m.itemCount == (int)l.rows.size() && m.itemLength == l.maxLen && !m.isNormalized &&
              !m.isGrouped, "load reports " << m.itemCount << " items of length " << m.itemLength);
      compare(l, [&] { return a.getDatasetInfo("d").itemCount; }, [&] { return a.getDatasetInfo("d").itemLength; },
              [&](int i) { return a.getTimeSeriesLength("d", i); }, [&](int i) { return a.getTimeSeriesName("d", i); },
              [&](int i) { return a.getTimeSeries("d", i, -1, -1); });
    }
    REQUIRE(api::refused([&] { a.loadDataset("e", c.path("missing"), l.seps); }), "a missing file is accepted");
  }
  // loading over old content, including content that was grouped and normalized
  if (!l.bad && s.chance(60)) {
    Layout old = layout(s);
    if (!old.bad) {
      gen::writeText(c.path("g"), old.text);
      NOTE(c, "loaded over\n" << old.text);
      genex::GroupableTimeSeriesSet set;
      set.loadData(c.path("g"), old.limit, old.startCol, old.seps, old.names);
      if (!old.rows.empty() && old.maxLen >= 2 && old.maxLen <= 10 && s.chance(50)) {
        set.normalize();
        set.groupAllLengths("euclidean", 0.5, 1, false);
        c.label("reload over a grouping");
      }
      set.loadData(c.path("f"), l.limit, l.startCol, l.seps, l.names);
      compare(l, [&] { return set.getItemCount(); }, [&] { return set.getMaxLength(); },
              [&](int i) { return set.getItemLength(i); }, [&](int i) { return set.getTimeSeriesName(i); },
              [&](int i) { return set.getTimeSeries(i); });
      REQUIRE(!set.isNormalized(), "reloaded data still counts as normalized");
      REQUIRE(!set.isGrouped() && set.getTotalNumberOfGroups() == 0, "reloaded data still counts as grouped");
      c.label("reload");
    }
  }
  if (l.names) c.label("name column");
  if (l.startCol) c.label("skipped columns");
  if (l.bad) c.label("bad token");
  bool uneven = false;
  for (auto& r : l.rows) uneven = uneven || (int)r.size() != l.maxLen;
  if (uneven) c.label("uneven rows");
  c.nontrivial = l.rows.size() >= 2 && l.maxLen >= 2;
}

PBT_MAIN("C01", prop, 20, 0)
