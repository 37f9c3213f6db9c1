// Any subsequence request returns the exact slice or a clean error.
#include "api.hpp"

using namespace pbt;

static int number(Src& s, int around)
{
  switch (s.below(7)) {
    case 0: case 1: case 2: return s.range(0, around);
    case 3: return around + s.range(-2, 2);
    case 4: return s.range(-3, 3);
    case 5: return s.range(0, around + 3);
    default: {
      static const int e[] = {2147483647, -2147483647 - 1, 1 << 30, -(1 << 30), 65536, -100, 1000000};
      return e[s.below(7)];
    }
  }
}

static void prop(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  a.setWarpingBandRatio(1.0);
  gen::Values v = gen::valueMode(s);
  gen::Shape sh = gen::scaled(s, {1, 5, 1, 8, 60}, 40, 100);
  gen::Table t = gen::table(s, sh, v);
  if (s.chance(20)) t.rows.insert(t.rows.begin() + s.below(t.rows.size() + 1), ref::Vec());
  bool names = s.chance(40);
  if (names) for (size_t i = 0; i < t.rows.size(); i++) t.names.push_back("r" + std::to_string(i * 3));
  gen::writeTable(c.path("t"), t);
  a.loadDataset("t", c.path("t"), " ", 0, 0, names);
  NOTE(c, gen::show(t));
  bool grouped = t.maxLen() >= 2 && s.chance(30);
  if (grouped) a.groupDataset("t", 0.5);
  int rows = t.rows.size(), good = 0, refused = 0;
  for (int q = s.range(5, 40); q > 0; q--) {
    int i = number(s, rows), b = number(s, t.maxLen()), e = number(s, t.maxLen());
    bool row = i >= 0 && i < rows;
    bool whole = b < 0 && e < 0;
    bool ok = row && (whole || (b >= 0 && b < e && e <= (int)t.rows[i].size()));
    ref::Vec want = !ok ? ref::Vec() : whole ? t.rows[i] : ref::slice(t.rows[i], b, e);
    std::ostringstream o;
    o << "row " << i << " [" << b << "," << e << ")";
    int kind = s.weighted({8, 2, 2, 2, 1, 1});
    NOTE(c, "request " << kind << " " << o.str());
    if (kind == 0) {
      bool threw = false;
      try {
        genex::TimeSeries ts = a.getTimeSeries("t", i, b, e);
        REQUIRE(ok, o.str() << " is accepted");
        REQUIRE(api::values(ts) == want, o.str() << " reads " << gen::show(api::values(ts)) << ", stored is " << gen::show(want));
        int st = whole ? 0 : b, en = whole ? (int)t.rows[i].size() : e;
        REQUIRE(ts.getIndex() == i && ts.getStart() == st && ts.getEnd() == en && ts.getLength() == en - st,
                o.str() << " describes itself as " << "row " << ts.getIndex() << " [" << ts.getStart() << "," << ts.getEnd() << ")");
        int k = number(s, ts.getLength());
        if (k < 0 || k >= ts.getLength())
          REQUIRE(api::refused([&] { volatile double d = ts[k]; (void)d; }), "index " << k << " of " << o.str() << " is accepted");
        else REQUIRE(ts[k] == want[k], "index " << k << " of " << o.str() << " reads " << ts[k]);
      }
      catch (const genex::GenexException&) { threw = true; }
      REQUIRE(threw == !ok, o.str() << (threw ? " is refused" : " is accepted"));
    }
    else if (kind == 1) {
      int got = -1;
      bool threw = api::refused([&] { got = a.getTimeSeriesLength("t", i); });
      REQUIRE(threw == !row, "length of row " << i << (threw ? " is refused" : " is accepted"));
      if (row) REQUIRE(got == (int)t.rows[i].size(), "length of row " << i << " is " << got);
      ok = row;
    }
    else if (kind == 2) {
      std::string got;
      bool threw = api::refused([&] { got = a.getTimeSeriesName("t", i); });
      REQUIRE(threw == !row, "name of row " << i << (threw ? " is refused" : " is accepted"));
      if (row) REQUIRE(got == (names ? t.names[i] : std::to_string(i)), "name of row " << i << " is " << got);
      ok = row;
    }
    else if (kind == 3) {  // ranges as arguments of other requests
      double d = 0;
      bool threw = api::refused([&] { d = a.distanceBetween("t", i, b, e, "t", i, b, e, "manhattan_dtw"); });
      bool fine = ok && !want.empty();
      REQUIRE(threw == !fine, "distance with " << o.str() << (threw ? " is refused" : " is accepted"));
      if (fine) REQUIRE(d == 0, "distance of " << o.str() << " to itself is " << d);
    }
    else if (kind == 4) {
      size_t n = 0;
      bool threw = api::refused([&] { n = a.matchingBetween("t", i, b, e, "t", i, b, e, "manhattan_dtw").size(); });
      bool fine = ok && !want.empty();
      REQUIRE(threw == !fine, "matching with " << o.str() << (threw ? " is refused" : " is accepted"));
      if (fine) REQUIRE(n >= want.size(), "matching of " << o.str() << " has " << n << " points");
    }
    else {
      if (t.maxLen() < 2) continue;
      bool threw = api::refused([&] { a.getKBestMatchesBruteForce(1, "t", "t", i, b, e); });
      bool fine = ok && !want.empty();
      REQUIRE(threw == !fine, "search with " << o.str() << (threw ? " is refused" : " is accepted"));
      if (grouped && !ok) {
        REQUIRE(api::refused([&] { a.getBestMatch("t", "t", i, b, e); }), "best match with " << o.str() << " is accepted");
        REQUIRE(api::refused([&] { a.getKBestMatches(1, 1, "t", "t", i, b, e); }), "k best with " << o.str() << " is accepted");
      }
    }
    if (ok) good++; else refused++;
  }
  for (int i = 0; i < rows; i++)
    REQUIRE(api::values(a.getTimeSeries("t", i, -1, -1)) == t.rows[i], "row " << i << " changed");
  REQUIRE(a.getDatasetInfo("t").itemCount == rows, "row count changed");
  if (good) c.label("slices returned");
  if (refused) c.label("requests refused");
  c.nontrivial = good >= 2 && refused >= 2;
}

PBT_MAIN("C04", prop, 20, 0)
