// C20: a refused request reports an error and changes nothing.
#include "session.hpp"

#include <sys/stat.h>

using namespace session;

// Datasets without values: requests are answered or refused, and a refused one changes nothing.
static void nothingLoaded(Src& s, Ctx& c)
{
  static const std::vector<std::string> texts = {"", "\n", "\n\n", " \n", "\n \n\n"};
  GenexAPI a;
  std::string text = s.pick(texts);
  int rows = std::count(text.begin(), text.end(), '\n');
  writeText(c.path("e"), text);
  writeText(c.path("o"), "1 2 3\n2 1 5\n");
  a.loadDataset("e", c.path("e"), " ");
  a.loadDataset("o", c.path("o"), " ");
  a.groupDataset("o", 0.5);
  a.preparePAA("o", 2);
  NOTE(c, "file of " << rows << " rows without values");
  std::string before = info(a, "e") + observe(a, "o", c.path("obs"));
  auto i = a.getDatasetInfo("e");
  REQUIRE(i.itemCount == rows && i.itemLength == 0, "described as " << i.itemCount << "x" << i.itemLength);
  for (int n = s.range(1, 6); n > 0; n--) {
    std::string dist = ref::NAMES[s.below(5)], what;
    bool refused = false;
    int row = s.range(-1, 3), k = s.range(1, 3), answers = -1;
    auto no = [&](const char* w, std::function<void()> f) { what = w; refused = api::refused(f); };
    switch (s.below(13)) {
      case 0: no("normalize", [&] { a.normalizeDataset("e"); }); if (rows == 0) REQUIRE(refused, "normalized nothing"); break;
      case 1: no("group", [&] { answers = a.groupDataset("e", s.unit(), dist, s.range(1, 3), s.chance(40)); }); break;
      case 2: no("prepare", [&] { a.preparePAA("e", s.range(1, 3)); }); break;
      case 3: no("best match in it", [&] { a.getBestMatch("e", "o", s.below(2)); }); REQUIRE(refused, "found something in nothing"); break;
      case 4: no("best match of it", [&] { a.getBestMatch("o", "e", row); }); REQUIRE(refused, "found something for nothing"); break;
      case 5: no("k best in it", [&] { answers = a.getKBestMatches(k, k + 1, "e", "o", 0).size(); }); break;
      case 6: no("brute force in it", [&] { answers = a.getKBestMatchesBruteForce(k, "e", "o", 1, -1, -1, dist).size(); }); break;
      case 7: no("brute force of it", [&] { a.getKBestMatchesBruteForce(k, "o", "e", row, -1, -1, dist).size(); }); REQUIRE(refused, "answered"); break;
      case 8: no("block search in it", [&] { answers = a.getKBestMatchesPAA(k, "e", "o", 1, -1, -1, dist).size(); }); break;
      case 9: no("block search of it", [&] { a.getKBestMatchesPAA(k, "o", "e", row, -1, -1, dist).size(); }); REQUIRE(refused, "answered"); break;
      case 10: no("point of it", [&] { a.getTimeSeries("e", row, 0, 1); }); REQUIRE(refused, "answered"); break;
      case 11: no("save groups", [&] { a.saveGroups("e", c.path("g")); a.loadGroups("e", c.path("g")); }); break;
      default: no("save groups as text", [&] { a.saveGroupsOld("e", c.path("g"), false); a.loadGroupsOld("e", c.path("g")); }); break;
    }
    NOTE(c, what << (refused ? " refused" : ""));
    if (!refused) c.label("answered: " + what);
    if (answers >= 0) REQUIRE(answers == 0, what << " gives " << answers);
    std::string after = info(a, "e") + observe(a, "o", c.path("obs"));
    if (refused) REQUIRE(after == before, "after a refused request (" << what << "):\n" << after << "before:\n" << before);
    before = after;
  }
  c.label("dataset without values");
}

static void run(Src& s, Ctx& c)
{
  if (s.below(100) >= 96) return nothingLoaded(s, c);
  Session S;
  int sets = s.range(1, 3);
  for (int i = 0; i < sets; i++) {
    std::string n = S.add(s, c);
    int ch = s.range(0, 3);
    for (int j = 0; j < ch; j++) S.change(s, c, n);
  }
  if (s.chance(30)) { S.ratio = ratio(s); S.api.setWarpingBandRatio(S.ratio); }
  std::string before = S.observeAll(c);
  std::string victim = c.path("victim");
  const std::string victimText = "1 2 3\n4 5 6\n";
  writeText(victim, victimText);
  mkdir(c.path("dir").c_str(), 0700);

  GenexAPI& a = S.api;
  int n = s.range(1, 5);
  for (int i = 0; i < n; i++) {
    std::string name = S.anyName(s), other = S.anyName(s);
    const Data& d = S.sets[name];
    const Data& o = S.sets[other];
    std::string unknown = "no such dataset";
    int rows = d.t.rows.size(), orow = o.t.rows.size();
    int badRow = s.chance(50) ? rows + s.below(3) : -1 - (int)s.below(3);
    int badORow = s.chance(50) ? orow + s.below(3) : -1 - (int)s.below(3);
    int row = s.below(rows);
    int len = d.t.rows[row].size();
    // a range that does not lie inside the row
    int bs = 0, be = 0;
    switch (s.below(5)) {
      case 0: bs = 0; be = len + s.range(1, 3); break;
      case 1: bs = s.range(0, len); be = bs - s.range(0, bs); break;
      case 2: bs = -s.range(1, 3); be = s.range(0, len); break;
      case 3: bs = len + s.range(0, 3); be = bs + s.range(1, 3); break;
      default: bs = s.range(0, len); be = -s.range(1, 3); break;
    }
    if (bs == be && s.chance(50)) { bs = len; be = len; }
    std::string badDist = s.pick(std::vector<std::string>{"", "nope", "euclid", "Euclidean", "euclidean_", "euclidean_dtw_dtw", "dtw"});
    std::string what;
    bool tested = true, ok = false;
    auto no = [&](std::function<void()> f) { ok = api::refused(f); };
    int kind = s.below(44);
    switch (kind) {
      case 0: what = "load under a used name"; no([&] { a.loadDataset(name, o.file, " ", 0, 0, o.names); }); break;
      case 1: what = "load a missing file under a used name"; no([&] { a.loadDataset(name, c.path("nofile"), " "); }); break;
      case 2: what = "load a missing file"; no([&] { a.loadDataset("new", c.path("nofile"), " "); }); break;
      case 3: {
        what = "load text that is no number";
        writeText(c.path("bad"), std::string("1 2 3\n4 ") + s.pick(std::vector<std::string>{"x", "5x", "--", "1e", "."}) + " 6\n");
        no([&] { a.loadDataset("new", c.path("bad"), " "); });
        break;
      }
      case 4: what = "load a directory"; no([&] { a.loadDataset("new", c.path("dir"), " "); }); break;
      case 5: what = "load with a negative first column"; no([&] { a.loadDataset("new", d.file, " ", 0, -s.range(1, 4)); }); break;
      case 6: what = "save an unknown dataset"; no([&] { a.saveDataset(unknown, victim, ' '); }); break;
      case 7: what = "save into a missing directory"; no([&] { a.saveDataset(name, c.path("nodir/x"), ' '); }); break;
      case 8: what = "save over a directory"; no([&] { a.saveDataset(name, c.path("dir"), ' '); }); break;
      case 9: what = "unload an unknown dataset"; no([&] { a.unloadDataset(unknown); }); break;
      case 10: what = "describe an unknown dataset"; no([&] { a.getDatasetInfo(unknown); }); break;
      case 11: what = "series name of an unknown dataset"; no([&] { a.getTimeSeriesName(unknown, 0); }); break;
      case 12: what = "series name out of range"; no([&] { a.getTimeSeriesName(name, badRow); }); break;
      case 13: what = "series length out of range"; no([&] { a.getTimeSeriesLength(name, badRow); }); break;
      case 14: what = "series length of an unknown dataset"; no([&] { a.getTimeSeriesLength(unknown, 0); }); break;
      case 15: what = "series of an unknown dataset"; no([&] { a.getTimeSeries(unknown, 0, 0, 1); }); break;
      case 16: what = "series out of range"; no([&] { a.getTimeSeries(name, badRow, 0, 1); }); break;
      case 17: what = "range outside of a series"; no([&] { a.getTimeSeries(name, row, bs, be); }); break;
      case 18: what = "normalize an unknown dataset"; no([&] { a.normalizeDataset(unknown); }); break;
      case 19: what = "group an unknown dataset"; no([&] { a.groupDataset(unknown, 0.5); }); break;
      case 20: what = "group with an unknown distance"; no([&] { a.groupDataset(name, s.unit(), badDist, s.range(1, 2), s.chance(30)); }); break;
      case 21: what = "group with too few threads"; no([&] { a.groupDataset(name, s.unit(), "euclidean", -(int)s.below(3), s.chance(30)); }); break;
      case 22:
        what = "save groups of an ungrouped dataset";
        if (d.grouped) { what = "save groups of an unknown dataset"; no([&] { a.saveGroups(unknown, victim); }); }
        else no([&] { a.saveGroups(name, victim); });
        break;
      case 23:
        what = "export groups of an ungrouped dataset";
        if (d.grouped) { what = "export groups of an unknown dataset"; no([&] { a.saveGroupsOld(unknown, victim, s.chance(50)); }); }
        else no([&] { a.saveGroupsOld(name, victim, s.chance(50)); });
        break;
      case 24: what = "save groups into a missing directory"; no([&] { a.saveGroups(name, c.path("nodir/x")); }); break;
      case 25: what = "export groups into a missing directory"; no([&] { a.saveGroupsOld(name, c.path("nodir/x"), s.chance(50)); }); break;
      case 26: what = "load groups from a missing file"; no([&] { a.loadGroups(name, c.path("nofile")); }); break;
      case 27: what = "load groups from a dataset file"; no([&] { a.loadGroups(name, victim); }); break;
      case 28: what = "load text groups from a missing file"; no([&] { a.loadGroupsOld(name, c.path("nofile")); }); break;
      case 29: what = "load text groups from a dataset file"; no([&] { a.loadGroupsOld(name, victim); }); break;
      case 30: what = "load groups of an unknown dataset"; no([&] { a.loadGroups(unknown, victim); }); break;
      case 31:
        what = "best match in an unknown dataset";
        if (s.chance(50)) no([&] { a.getBestMatch(unknown, name, row); });
        else no([&] { a.getBestMatch(name, unknown, row); });
        break;
      case 32: what = "best match with a bad query"; no([&] {
        if (s.chance(50)) a.getBestMatch(other, name, badRow); else a.getBestMatch(other, name, row, bs, be); }); break;
      case 33: what = "best match with a query of length one"; { int p = s.below(len); no([&] { a.getBestMatch(other, name, row, p, p + 1); }); } break;
      case 34:
        what = "best match in an ungrouped dataset";
        if (o.grouped) tested = false;
        else no([&] { a.getBestMatch(other, name, row); });
        break;
      case 35: what = "k matches with a bad k"; { int k = -(int)s.below(3); no([&] { a.getKBestMatches(k, s.range(-2, 3), other, name, row); }); } break;
      case 36: what = "k matches with too few examined"; { int k = s.range(1, 4); no([&] { a.getKBestMatches(k, k - s.range(1, k + 1), other, name, row); }); } break;
      case 37: what = "brute force with a bad request"; no([&] {
        switch (s.below(5)) {
          case 0: a.getKBestMatchesBruteForce(-(int)s.below(3), other, name, row); break;
          case 1: a.getKBestMatchesBruteForce(2, other, name, row, -1, -1, badDist); break;
          case 2: a.getKBestMatchesBruteForce(2, other, name, row, bs, be); break;
          case 3: a.getKBestMatchesBruteForce(2, unknown, name, row); break;
          default: a.getKBestMatchesBruteForce(2, other, name, badRow); break;
        } }); break;
      case 38: what = "prepare PAA with a bad block"; no([&] { a.preparePAA(name, -(int)s.below(3)); }); break;
      case 39: what = "prepare PAA of an unknown dataset"; no([&] { a.preparePAA(unknown, 2); }); break;
      case 40:
        what = "PAA search with a bad request";
        no([&] {
          if (o.block == 0) { a.getKBestMatchesPAA(2, other, name, row); return; }
          switch (s.below(5)) {
            case 0: a.getKBestMatchesPAA(-(int)s.below(3), other, name, row); break;
            case 1: a.getKBestMatchesPAA(2, other, name, row, -1, -1, badDist); break;
            case 2: a.getKBestMatchesPAA(2, other, name, row, bs, be); break;
            case 3: a.getKBestMatchesPAA(2, unknown, name, row); break;
            default: a.getKBestMatchesPAA(2, other, name, badRow); break;
          } });
        break;
      case 41: what = "distance of a bad request"; no([&] {
        switch (s.below(5)) {
          case 0: a.distanceBetween(unknown, 0, 0, 1, other, 0, 0, 1, "euclidean"); break;
          case 1: a.distanceBetween(name, row, -1, -1, other, badORow, -1, -1, "euclidean_dtw"); break;
          case 2: a.distanceBetween(name, row, bs, be, other, 0, -1, -1, "euclidean_dtw"); break;
          case 3: a.distanceBetween(name, row, 0, 1, other, 0, 0, 1, badDist); break;
          default: a.distanceBetween(name, badRow, 0, 1, other, 0, 0, 1, "manhattan"); break;
        } }); break;
      case 42: what = "matching of a bad request"; no([&] {
        switch (s.below(5)) {
          case 0: a.matchingBetween(unknown, 0, 0, 1, other, 0, 0, 1, "euclidean_dtw"); break;
          case 1: a.matchingBetween(name, row, 0, 1, other, 0, 0, 1, s.pick(std::vector<std::string>{"euclidean", "manhattan", "d", "", "tw"})); break;
          case 2: a.matchingBetween(name, row, bs, be, other, 0, -1, -1, "euclidean_dtw"); break;
          case 3: a.matchingBetween(name, row, 0, 1, other, badORow, 0, 1, "euclidean_dtw"); break;
          default: a.matchingBetween(name, row, 0, 1, other, 0, 0, 1, badDist); break;
        } }); break;
      default: {
        what = "point-wise distance of different lengths";
        int l1 = s.range(1, len), l2 = s.range(1, (int)o.t.rows[0].size());
        if (l1 == l2) { tested = false; break; }
        std::string dist = ref::NAMES[s.below(5)];
        no([&] { a.distanceBetween(name, row, 0, l1, other, 0, 0, l2, dist); });
        break;
      }
    }
    if (!tested) continue;
    NOTE(c, what << " ('" << name << "' row " << row << " bad row " << badRow << " range " << bs << ".." << be << " distance '" << badDist << "')");
    REQUIRE(ok, "no error is reported for: " << what);
    c.label(what);
    REQUIRE(readText(victim) == victimText, "a refused request changed a file: " << what);
    std::string after = S.observeAll(c);
    REQUIRE(after == before, "after a refused request (" << what << "):\n" << after << "before:\n" << before);
    c.nontrivial = true;
  }
  S.requireListing();
  // the session is still usable
  std::string n2 = S.add(s, c);
  S.change(s, c, n2);
  S.requireListing();
}

PBT_MAIN("C20", run, 20, 0)
