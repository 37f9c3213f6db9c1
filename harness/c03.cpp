// Normalization is the dataset-wide min-max map onto [0,1].
#include "api.hpp"

using namespace pbt;

static void prop(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  gen::Values v = gen::valueMode(s);
  gen::Shape sh = gen::scaled(s, {1, 7, 1, 12, 50}, 1500, 300);
  gen::Table t = gen::table(s, sh, v);
  int style = s.weighted({6, 2, 2, 2});
  if (style == 1) for (auto& r : t.rows) for (auto& d : r) d = -d - 1;              // all negative
  if (style == 2) { double k = s.range(-2, 2); for (auto& r : t.rows) for (auto& d : r) d = k; }  // constant
  if (style == 3) {  // the extremes sit alone somewhere
    auto& r = t.rows[s.below(t.rows.size())];
    r[s.chance(50) ? 0 : r.size() - 1] = s.chance(50) ? 1e4 : -1e4;
    auto& q = t.rows[s.below(t.rows.size())];
    q[s.chance(50) ? 0 : q.size() - 1] = s.chance(50) ? 2e4 : -2e4;
  }
  if (s.chance(15)) {  // any magnitude of the whole dataset
    double f = std::pow(10, s.range(-30, 30));
    for (auto& r : t.rows) for (auto& d : r) d *= f;
    c.label("other magnitude");
  }
  if (s.chance(20)) t.rows.insert(t.rows.begin() + s.below(t.rows.size() + 1), ref::Vec());
  bool names = s.chance(40);
  if (names) for (size_t i = 0; i < t.rows.size(); i++) t.names.push_back("r" + std::to_string(i * 3));
  int limit = s.chance(25) ? s.range(1, t.rows.size()) : 0;
  gen::writeTable(c.path("t"), t);
  gen::Table other = gen::table(s, sh, v);
  gen::writeTable(c.path("o"), other);
  a.loadDataset("o", c.path("o"));
  a.loadDataset("t", c.path("t"), " ", limit, 0, names);
  if (limit) t.rows.resize(std::min((size_t)limit, t.rows.size()));
  NOTE(c, gen::show(t) << (limit ? " (row limit)" : ""));
  double mn = ref::INFTY, mx = -ref::INFTY;
  for (auto& r : t.rows) for (double d : r) { mn = std::min(mn, d); mx = std::max(mx, d); }
  if (mn > mx) throw Discard();  // nothing but empty rows
  REQUIRE(!a.getDatasetInfo("t").isNormalized, "a fresh dataset counts as normalized");
  auto p = a.normalizeDataset("t");
  REQUIRE(p.first == mn && p.second == mx, "normalization returns (" << p.first << "," << p.second << "), expected ("
          << mn << "," << mx << ")");
  bool zero = false, one = false;
  std::vector<ref::Vec> now;
  for (size_t i = 0; i < t.rows.size(); i++) {
    ref::Vec r = api::values(a.getTimeSeries("t", i, -1, -1));
    now.push_back(r);
    REQUIRE(r.size() == t.rows[i].size(), "row " << i << " changed length to " << r.size());
    REQUIRE(a.getTimeSeriesName("t", i) == (names ? t.names[i] : std::to_string(i)), "row " << i << " changed its name");
    for (size_t k = 0; k < r.size(); k++) {
      double want = mx == mn ? 0 : (t.rows[i][k] - mn) / (mx - mn);
      REQUIRE(ref::close(r[k], want, 1e-12) && r[k] >= 0 && r[k] <= 1, "row " << i << " value " << k << " became " << r[k]
              << ", expected " << want);
      zero = zero || r[k] == 0;
      one = one || r[k] == 1;
    }
  }
  REQUIRE(zero && (one || mx == mn), "the normalized values do not attain 0 and 1");
  genex::dataset_metadata_t m = a.getDatasetInfo("t");
  REQUIRE(m.isNormalized && m.itemCount == (int)t.rows.size() && m.itemLength == t.maxLen(), "metadata changed");
  auto q = a.normalizeDataset("t");
  REQUIRE(q.first == 0 && q.second == (mx == mn ? 0 : 1), "normalizing again returns (" << q.first << "," << q.second << ")");
  for (size_t i = 0; i < t.rows.size(); i++)
    REQUIRE(api::values(a.getTimeSeries("t", i, -1, -1)) == now[i], "normalizing again changes row " << i);
  REQUIRE(!a.getDatasetInfo("o").isNormalized, "another dataset became normalized");
  for (size_t i = 0; i < other.rows.size(); i++)
    REQUIRE(api::values(a.getTimeSeries("o", i, -1, -1)) == other.rows[i], "another dataset changed");
  if (mx == mn) c.label("constant");
  if (mx < 0) c.label("all negative");
  if (limit) c.label("row limit");
  bool uneven = false;
  for (auto& r : t.rows) uneven = uneven || r.size() != t.rows[0].size();
  if (uneven) c.label("uneven");
  c.nontrivial = mx != mn && t.rows.size() >= 2;
}

PBT_MAIN("C03", prop, 20, 0)
