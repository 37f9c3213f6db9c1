// C18: damaged and foreign group files.
#include "match.hpp"

#include <boost/iostreams/copy.hpp>
#include <boost/iostreams/filter/zlib.hpp>
#include <boost/iostreams/filtering_streambuf.hpp>

using namespace match;

static std::string inflate(const std::string& z)
{
  std::istringstream in(z);
  std::ostringstream out;
  boost::iostreams::filtering_istreambuf b;
  b.push(boost::iostreams::zlib_decompressor());
  b.push(in);
  boost::iostreams::copy(b, out);
  return out.str();
}
static std::string deflate(const std::string& p)
{
  std::istringstream in(p);
  std::ostringstream out;
  boost::iostreams::filtering_istreambuf b;
  b.push(boost::iostreams::zlib_compressor());
  b.push(in);
  boost::iostreams::copy(b, out);
  return out.str();
}

static std::string probe(genex::GenexAPI& a, const Table& t)
{
  std::string o;
  char b[64];
  genex::setWarpingBandRatio(0.5);
  for (int i = 0; i < (int)t.rows.size() && i < 3; i++) {
    try {
      Hit h = api::hit(a.getBestMatch("d", "d", i));
      snprintf(b, sizeof b, " %d[%d,%d)=%a", h.index, h.start, h.end, h.dist);
      o += b;
      for (auto& x : api::hits(a.getKBestMatches(3, 6, "d", "d", i))) {
        snprintf(b, sizeof b, " %d[%d,%d)=%a", x.index, x.start, x.end, x.dist);
        o += b;
      }
    }
    catch (const genex::GenexException&) { o += " refused"; }
  }
  genex::setWarpingBandRatio(0.1);
  return o;
}

static void run(Src& s, Ctx& c)
{
  Case k = generate(s, scaled(s, Shape{1, 4, 1, 6, 50}, 30, 40), false);
  note(c, k);
  writeTable(c.path("d"), k.t);
  genex::GenexAPI a;
  a.loadDataset("d", c.path("d"), " ");
  a.groupDataset("d", k.thr, k.dist, 1, k.whole);
  std::string saved = api::canonical(api::exportGroups(a, "d", c.path("e")));
  bool text = s.chance(40);
  if (text) a.saveGroupsOld("d", c.path("g"), false); else a.saveGroups("d", c.path("g"));
  std::string orig = readText(c.path("g")), bad = orig;

  // the state that must survive a refusal
  bool before = s.chance(70);
  a.unloadDataset("d");
  a.loadDataset("d", c.path("d"), " ");
  if (before) a.groupDataset("d", s.unit(), ref::NAMES[s.below(3)], 1, s.chance(30));
  auto info0 = a.getDatasetInfo("d");
  std::string groups0, probe0;
  if (before) { groups0 = api::canonical(api::exportGroups(a, "d", c.path("e"))); probe0 = probe(a, k.t); }

  // damage
  bool crafted = false, dims = false, missing = false;
  int kind = s.weighted({22, 22, 8, 6, 6, 6, 4, 4, 4, 10, 10});
  std::string what;
  switch (kind) {
    case 0: { size_t n = s.below(orig.size()); bad = orig.substr(0, n); what = "cut to " + std::to_string(n) + " bytes"; break; }
    case 1: {
      int n = s.range(1, 3);
      for (int i = 0; i < n; i++) {
        size_t p = s.below(bad.size());
        if (text && s.chance(80)) bad[p] = "0123456789 -.\n"[s.below(14)];
        else bad[p] ^= (char)(1 << s.below(8));
      }
      what = "bytes changed";
      break;
    }
    case 2: { size_t p = s.below(bad.size()), n = s.range(1, 4); bad.erase(p, n); what = "bytes removed"; break; }
    case 3: {
      size_t p = s.below(bad.size());
      std::string ins;
      int n = s.range(1, 4);
      for (int i = 0; i < n; i++) ins += (char)s.below(256);
      bad.insert(p, ins);
      what = "bytes inserted";
      break;
    }
    case 4: { int n = s.range(1, 5); for (int i = 0; i < n; i++) bad += text ? " 7" : std::string(1, (char)s.below(256)); what = "bytes appended"; break; }
    case 5: bad = ""; what = "empty"; break;
    case 6: missing = true; what = "missing"; break;
    case 7: { int n = s.range(1, 40); bad = ""; for (int i = 0; i < n; i++) bad += (char)s.below(256); what = "noise"; break; }
    case 8: {
      // the wrong kind of file
      genex::GenexAPI b;
      b.loadDataset("d", c.path("d"), " ");
      b.groupDataset("d", k.thr, k.dist, 1, k.whole);
      int w = s.below(3);
      if (w == 0) bad = readText(c.path("d"));
      else if (w == 1) { if (text) b.saveGroups("d", c.path("w")); else b.saveGroupsOld("d", c.path("w"), false); bad = readText(c.path("w")); }
      else { b.saveGroupsOld("d", c.path("w"), true); bad = readText(c.path("w")); }
      what = w == 0 ? "a dataset file" : w == 1 ? "the other group format" : "a sizes-only export";
      break;
    }
    case 9: {
      // saved from a dataset of other dimensions
      Values m = valueMode(s);
      Table o = table(s, Shape{1, 5, 1, 7, 50}, m);
      dims = o.rows.size() != k.t.rows.size() || o.maxLen() != k.t.maxLen();
      writeTable(c.path("o"), o);
      genex::GenexAPI b;
      b.loadDataset("o", c.path("o"), " ");
      b.groupDataset("o", s.unit(), ref::NAMES[s.below(3)], 1, s.chance(30));
      if (text) b.saveGroupsOld("o", c.path("w"), false); else b.saveGroups("o", c.path("w"));
      bad = readText(c.path("w"));
      // rows of other lengths under the same overall dimensions
      if (!dims) crafted = true;
      what = "saved from " + show(o);
      break;
    }
    default: {
      // well-formed compression around altered numbers
      if (text) { bad = orig.substr(0, s.below(orig.size())); what = "cut"; break; }
      std::string p = inflate(orig);
      size_t at = p.find(k.dist);
      if (at == std::string::npos) throw pbt::Discard();
      at += k.dist.size() + 8;
      if (at >= p.size()) throw pbt::Discard();
      int n = s.range(1, 2);
      for (int i = 0; i < n; i++) {
        size_t pos = at + s.below(p.size() - at);
        p[pos] = s.chance(60) ? (char)s.below(8) : (char)s.below(256);
      }
      if (s.chance(20)) p.resize(at + s.below(p.size() - at + 1));
      bad = deflate(p);
      crafted = true;
      what = "numbers inside changed";
      break;
    }
  }
  NOTE(c, (text ? "text" : "compressed") << " file, " << what << (before ? ", grouped before" : ""));
  if (missing) unlink(c.path("g").c_str());
  else writeText(c.path("g"), bad);
  static const char* const kinds[] = {"cut", "changed", "removed", "inserted", "appended", "empty", "missing", "noise",
                                      "wrong kind", "other dataset", "crafted"};
  c.label(kinds[kind]);

  bool failed = false;
  int n = 0;
  try { n = text ? a.loadGroupsOld("d", c.path("g")) : a.loadGroups("d", c.path("g")); }
  catch (const genex::GenexException&) { failed = true; }
  auto info = a.getDatasetInfo("d");
  REQUIRE(info.itemCount == info0.itemCount && info.itemLength == info0.itemLength && !info.isNormalized,
          "loading groups changed the dataset");
  if (failed) {
    REQUIRE(info.isGrouped == before && info.distance == info0.distance && info.threshold == info0.threshold,
            "a refused group file left grouped=" << info.isGrouped << " '" << info.distance << "' " << info.threshold);
    if (before) {
      REQUIRE(api::canonical(api::exportGroups(a, "d", c.path("e"))) == groups0, "a refused group file changed the grouping");
      REQUIRE(probe(a, k.t) == probe0, "a refused group file changed the answers");
    }
    c.label("refused");
    c.nontrivial = kind <= 3 || kind >= 8;
    return;
  }
  REQUIRE(!missing && !dims && !bad.empty(), "a file that is " << what << " was accepted");
  c.label("accepted");
  REQUIRE(info.isGrouped, "loading succeeded but the dataset is not grouped");
  Grouping g = api::exportGroups(a, "d", c.path("e"));
  REQUIRE(n == g.count, "loading reports " << n << " groups, there are " << g.count);
  probe(a, k.t);
  if (!text && !crafted) {
    REQUIRE(api::canonical(g) == saved, "an altered file was accepted and restores another grouping:\n"
                                          << api::canonical(g) << "saved\n" << saved);
  }
  else {
    bool whole = g.from != 2;
    requirePartition(g, k.t, whole, !crafted);
  }
  c.nontrivial = bad != orig;
}

PBT_MAIN("C18", run, 20, 0)
