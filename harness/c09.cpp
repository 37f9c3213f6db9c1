// Lower bounds never exceed the warped euclidean distance; envelopes are exact and current.
#include "slots.hpp"
#include "distance/Distance.hpp"

using namespace pbt;
using namespace slots;

// These bounds are internal: the check goes on without one that is not there under this name.
template <class T> auto kim(const T& a, const T& b, double bound, int) -> decltype((double)kimLowerBound(a, b, bound))
{
  return kimLowerBound(a, b, bound);
}
template <class T> double kim(const T&, const T&, double, long) { return 0; }
template <class T> auto keogh(const T& a, const T& b, double bound, int) -> decltype((double)keoghLowerBound(a, b, bound))
{
  return keoghLowerBound(a, b, bound);
}
template <class T> double keogh(const T&, const T&, double, long) { return 0; }
template <class T> auto twoSided(const T& a, const T& b, double bound, int) -> decltype((double)crossKeoghLowerBound(a, b, bound))
{
  return crossKeoghLowerBound(a, b, bound);
}
template <class T> double twoSided(const T&, const T&, double, long) { return 0; }

static void checkEnvelope(World& w, int i, int band, bool upperFirst, Ctx& c)
{
  Vec v = w.valuesOf(i);
  int n = v.size();
  const double *lo = nullptr, *up = nullptr;
  if (upperFirst) up = w.slot[i]->getKeoghUpper(band);
  lo = w.slot[i]->getKeoghLower(band);
  if (!upperFirst) up = w.slot[i]->getKeoghUpper(band);
  for (int k = 0; k < n; k++) {
    double mn = v[k], mx = v[k];
    for (int j = std::max(0, k - band); j <= std::min(n - 1, k + band); j++) {
      mn = std::min(mn, v[j]);
      mx = std::max(mx, v[j]);
    }
    REQUIRE(lo[k] == mn && up[k] == mx, "envelope of slot " << i << " " << gen::show(v) << " with half-width " << band
            << " at " << k << " is [" << lo[k] << "," << up[k] << "], expected [" << mn << "," << mx << "]");
  }
  if (band > 0 && band < n - 1) c.label("partial window");
}

static void checkBounds(World& w, int i, int j, double ratio, double factor, Ctx& c)
{
  Vec x = w.valuesOf(i), y = w.valuesOf(j);
  double exact = ref::warped("euclidean", x, y, ratio);
  double bound = std::isinf(exact) || factor < 0 ? ref::INFTY : exact * factor;
  genex::TimeSeries &a = *w.slot[i], &b = *w.slot[j];
  double ends = kim(a, b, bound, 0);
  double keo = keogh(a, b, bound, 0);
  double two = twoSided(a, b, bound, 0);
  std::ostringstream o;
  o << " exceeds the distance " << exact << " of " << gen::show(x) << " " << gen::show(y) << " (ratio " << ratio
    << ", bound " << bound << ")";
  REQUIRE(ref::leq(ends, exact), "first/last-point bound " << ends << o.str());
  REQUIRE(ref::leq(keo, exact), "envelope bound " << keo << o.str());
  REQUIRE(ref::leq(two, exact), "two-sided envelope bound " << two << o.str());
  if (ends > 0 || keo > 0) c.label("bound above zero");
  if (keo > 0) c.nontrivial = true;
}

static void prop(Src& s, Ctx& c)
{
  double ratio = gen::ratio(s);
  genex::setWarpingBandRatio(ratio);
  std::vector<Op> ops = history(s, s.range(3, 14), false);
  World w;
  for (auto& o : ops) {
    NOTE(c, show(o));
    w.apply(o);
    for (int q = s.range(0, 2); q > 0; q--) {
      if (s.chance(15)) {
        ratio = gen::ratio(s);
        genex::setWarpingBandRatio(ratio);
        NOTE(c, "ratio " << ratio);
      }
      int i = s.below(N), j = s.below(N);
      if (!w.slot[i]) continue;
      if (s.chance(60) || !w.slot[j]) {
        int band = s.weighted({3, 1}) == 0 ? s.range(0, 4) : s.range(0, 14);
        NOTE(c, "envelope of " << i << " half-width " << band);
        checkEnvelope(w, i, band, s.chance(50), c);
      }
      else {
        NOTE(c, "bounds " << i << " " << j);
        static const double f[] = {-1, 1 + 1e-6, 1.1, 2, 10};
        checkBounds(w, i, j, ratio, f[s.below(5)], c);
      }
    }
  }
  // two longer random series
  gen::Values v = gen::valueMode(s);
  int lim = gen::scaledLimit(s, 24, 250);
  int m = s.range(1, lim), n = s.chance(40) ? m : s.range(1, lim);
  Vec x = gen::series(s, v, m), y = gen::series(s, v, n);
  World u;
  u.buffer[0] = u.model[0] = x;
  u.buffer[1] = u.model[1] = y;
  u.slot[0].reset(new genex::TimeSeries(u.buffer[0].data(), m));
  u.slot[1].reset(new genex::TimeSeries(u.buffer[1].data(), n));
  u.shadow[0].owned = u.shadow[1].owned = false;
  u.shadow[0].end = m;
  u.shadow[1].end = n;
  u.shadow[1].buf = 1;
  NOTE(c, "series " << gen::show(x) << " " << gen::show(y));
  checkEnvelope(u, 0, s.range(0, m + 1), s.chance(50), c);
  checkBounds(u, 0, 1, ratio, s.chance(50) ? -1 : 1 + 1e-6, c);
  checkBounds(u, 1, 0, ratio, s.chance(50) ? -1 : 1 + 1e-6, c);
}

PBT_MAIN("C09", prop, 20, 0)
