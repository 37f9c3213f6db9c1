// Early abandoning never changes a distance that is within the bound.
#include "api.hpp"
#include "distance/Distance.hpp"

using namespace pbt;

// The pruned distance is internal: the check goes on without it where it is not there under this name.
template <class T> auto pruned(const T& a, const T& b, double bound, int) -> decltype((double)cascadeDistance(a, b, bound, genex::gNoMatching))
{
  return cascadeDistance(a, b, bound, genex::gNoMatching);
}
template <class T> double pruned(const T& a, const T& b, double bound, long)
{
  return genex::getDistanceFromName("euclidean_dtw")(a, b, bound, genex::gNoMatching);
}

static void prop(Src& s, Ctx& c)
{
  double ratio = gen::ratio(s);
  genex::setWarpingBandRatio(ratio);
  std::string name = ref::NAMES[s.below(3)];
  int form = s.weighted({4, 4, name == "euclidean" ? 5 : 0});  // point-wise, warped, pruned
  gen::Values v = gen::valueMode(s);
  int lim = gen::scaledLimit(s, s.chance(20) ? 24 : 8, 250, 1);
  int m = s.range(1, lim), n = m;
  if (form > 0) n = s.chance(40) ? m : s.chance(60) ? std::min(lim, m + s.range(0, 3)) : s.range(1, lim);
  if (s.chance(50)) std::swap(m, n);
  ref::Vec x = gen::series(s, v, m), y = gen::series(s, v, n);
  if (s.chance(10)) y = gen::series(s, v, n), std::copy(x.begin(), x.begin() + std::min(m, n), y.begin());
  genex::TimeSeries a(x.data(), 0, 0, m), b(y.data(), 0, 0, n);
  NOTE(c, name << (form == 0 ? "" : form == 1 ? "_dtw" : " pruned dtw") << " ratio " << ratio << " "
       << gen::show(x) << " " << gen::show(y));
  genex::dist_t g = genex::getDistanceFromName(form ? name + "_dtw" : name);
  auto f = [&](const genex::TimeSeries& p, const genex::TimeSeries& q, double bound) -> double {
    return form == 2 ? pruned(p, q, bound, 0) : g(p, q, bound, genex::gNoMatching);
  };
  double want = form == 0 ? ref::pairwise(name, x, y) : ref::warped(name, x, y, ratio);
  double exact = f(a, b, ref::INFTY);
  REQUIRE(ref::close(exact, want), "without a bound the distance is " << exact << ", expected " << want);
  bool pow2 = (std::max(m, n) & (std::max(m, n) - 1)) == 0;
  // arithmetic without rounding, so the comparison with the bound is exact
  bool strict = name == "chebyshev" ||
                (name == "manhattan" && pow2 && (v.mode == gen::V_TINY || v.mode == gen::V_DYADIC)) ||
                want == 0;
  for (int k = 0; k < 6; k++) {
    double bound;
    switch (s.below(8)) {
      case 0: bound = exact; break;
      case 1: bound = exact * (1 + s.unit() * 0.1); break;
      case 2: bound = exact * (1 - s.unit() * 0.1); break;
      case 3: bound = exact * s.unit(); break;
      case 4: bound = exact * (1 + 10 * s.unit()); break;
      case 5: bound = 0; break;
      case 6: bound = s.unit(); break;
      default: bound = exact * (1 + 1e-6); break;
    }
    if (std::isnan(bound)) continue;
    double got = f(a, b, bound);
    bool inside = strict ? exact <= bound : exact <= bound * (1 - 1e-9);
    if (inside)
      REQUIRE(ref::close(got, exact), "with bound " << bound << " the distance is " << got << ", exactly it is " << exact);
    else
      REQUIRE(ref::close(got, exact) || (std::isinf(got) && got > 0),
              "with bound " << bound << " the distance is " << got << ", neither infinite nor the exact " << exact);
    if (inside && !std::isinf(bound)) c.label("kept");
    if (std::isinf(got) && !std::isinf(exact)) c.label("abandoned");
    if (bound == exact && strict) c.label("bound equals distance");
  }
  c.label(form == 0 ? "point-wise" : form == 1 ? "warped" : "pruned");
  c.nontrivial = !std::isinf(exact) && exact != 0 && m >= 2 && n >= 2;
}

PBT_MAIN("C08", prop, 20, 0)
