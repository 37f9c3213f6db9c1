// Point-wise distances equal their definitions.
#include "api.hpp"
#include "distance/Distance.hpp"

using namespace pbt;

static void prop(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  a.setWarpingBandRatio(gen::ratio(s));
  std::string name = ref::NAMES[s.below(5)];
  bool defined = name == "cosine" || name == "sorensen";  // 0/0 is outside the domain
  gen::Values v = gen::valueMode(s, defined);
  int len = s.weighted({60, 40}) == 0 ? s.range(1, 8) : s.range(1, gen::scaledLimit(s, 40, 3000));
  int pad1 = s.range(0, 3), pad2 = s.range(0, 3);
  ref::Vec x = gen::series(s, v, pad1 + len + s.range(0, 2));
  ref::Vec y = gen::series(s, v, pad2 + len + s.range(0, 2));
  if (s.chance(15)) for (int i = 0; i < len; i++) y[pad2 + i] = x[pad1 + i];
  if (defined && s.chance(30)) {
    // signs may be mixed as long as the definition has a non-zero denominator
    for (auto& d : x) if (s.chance(30)) d = -d;
    for (auto& d : y) if (s.chance(30)) d = -d;
  }
  if (name == "sorensen" && s.chance(10))
    for (int i = 0; i < len; i++) x[pad1 + i] = y[pad2 + i] = 0;
  gen::Table tx, ty;
  bool same = s.chance(30);
  tx.rows.push_back(x);
  (same ? tx : ty).rows.push_back(y);
  if (s.chance(50)) tx.rows.push_back(gen::series(s, v, s.range(1, 45)));
  gen::writeTable(c.path("x"), tx);
  if (!same) gen::writeTable(c.path("y"), ty);
  a.loadDataset("x", c.path("x"));
  if (!same) a.loadDataset("y", c.path("y"));
  std::string ny = same ? "x" : "y";
  int iy = same ? 1 : 0;

  ref::Vec sx = ref::slice(x, pad1, pad1 + len), sy = ref::slice(y, pad2, pad2 + len);
  NOTE(c, name << " " << gen::show(sx) << " " << gen::show(sy));
  double want = ref::pairwise(name, sx, sy);
  bool zero = name == "sorensen";
  for (int i = 0; zero && i < len; i++) zero = sx[i] == 0 && sy[i] == 0;
  if (zero) want = 0;
  if (std::isnan(want) || std::isinf(want)) throw Discard();
  if (name == "sorensen" && !zero) {
    double den = 0, num = 0;
    for (int i = 0; i < len; i++) { den += std::fabs(sx[i] + sy[i]); num += std::fabs(sx[i] - sy[i]); }
    if (den < 1e-6 * num) throw Discard();
  }
  double got = a.distanceBetween("x", 0, pad1, pad1 + len, ny, iy, pad2, pad2 + len, name);
  double rev = a.distanceBetween(ny, iy, pad2, pad2 + len, "x", 0, pad1, pad1 + len, name);
  REQUIRE(ref::close(got, want, 1e-9), name << " distance is " << got << ", definition gives " << want);
  REQUIRE(ref::close(got, rev, 1e-12), name << " is not symmetric: " << got << " " << rev);
  bool nonneg = true;
  for (double d : sx) nonneg = nonneg && d >= 0;
  for (double d : sy) nonneg = nonneg && d >= 0;
  if (nonneg) REQUIRE(got >= 0, name << " is negative on non-negative data: " << got);
  double self = a.distanceBetween("x", 0, pad1, pad1 + len, "x", 0, pad1, pad1 + len, name);
  REQUIRE(ref::close(self, name == "cosine" ? 1 : 0, 1e-9), name << " of a series with itself is " << self);

  // the same values held as copies
  genex::TimeSeries ox(len), oy(len);
  for (int i = 0; i < len; i++) { ox[i] = sx[i]; oy[i] = sy[i]; }
  auto f = genex::getDistanceFromName(name);
  double own = f(ox, oy, ref::INFTY, genex::gNoMatching);
  double mixed = f(ox, a.getTimeSeries(ny, iy, pad2, pad2 + len), ref::INFTY, genex::gNoMatching);
  REQUIRE(own == got && mixed == got, name << " depends on ownership: " << got << " " << own << " " << mixed);

  // refusals
  if (len >= 2 && s.chance(50)) {
    int cut = s.range(1, len - 1);
    REQUIRE(api::refused([&] { a.distanceBetween("x", 0, pad1, pad1 + cut, ny, iy, pad2, pad2 + len, name); }),
            name << " accepts lengths " << cut << " and " << len);
    REQUIRE(api::refused([&] { a.distanceBetween("x", 0, pad1, pad1 + len, ny, iy, pad2, pad2 + cut, name); }),
            name << " accepts lengths " << len << " and " << cut);
  }
  if (s.chance(30)) {
    static const char* bad[] = {"", "euclid", "Euclidean", "euclidean ", "dtw", "_dtw", "euclidean_dtw_dtw", "cos"};
    std::string b = bad[s.below(8)];
    REQUIRE(api::refused([&] { a.distanceBetween("x", 0, -1, -1, "x", 0, -1, -1, b); }),
            "unknown distance name '" << b << "' is accepted");
  }
  c.label(name);
  if (len == 1) c.label("length 1");
  if (got == 0) c.label("zero distance");
  c.nontrivial = len >= 2 && got != 0;
}

PBT_MAIN("C05", prop, 20, 0)
