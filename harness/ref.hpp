// Independent reference definitions, written from the documented semantics only.
#ifndef REF_HPP
#define REF_HPP

#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

namespace ref {

typedef std::vector<double> Vec;
static const double INFTY = std::numeric_limits<double>::infinity();

inline bool close(double a, double b, double tol = 1e-9)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
inline bool leq(double a, double b, double tol = 1e-9)
{
  return a <= b || close(a, b, tol);
}

inline Vec slice(const Vec& v, int s, int e) { return Vec(v.begin() + s, v.begin() + e); }

static const char* const NAMES[5] = {"euclidean", "manhattan", "chebyshev", "cosine", "sorensen"};

inline double pairwise(const std::string& d, const Vec& x, const Vec& y)
{
  double a = 0, b = 0, c = 0, m = 0;
  size_t n = x.size();
  for (size_t i = 0; i < n; i++) {
    double df = std::fabs(x[i] - y[i]);
    if (d == "euclidean") a += df * df;
    else if (d == "manhattan") a += df;
    else if (d == "chebyshev") m = std::max(m, df);
    else if (d == "cosine") { a += x[i] * x[i]; b += y[i] * y[i]; c += x[i] * y[i]; }
    else { a += df; b += std::fabs(x[i] + y[i]); }
  }
  if (d == "euclidean") return std::sqrt(a / n);
  if (d == "manhattan") return a / n;
  if (d == "chebyshev") return m;
  if (d == "cosine") return c / std::sqrt(a * b);
  return a / b;
}

inline int band(int longest, double ratio)
{
  int b = (int)std::floor(longest * ratio);
  return std::min(b, longest - 1);
}

// raw (un-normalised) optimum over warping paths with |i-j| <= r, INFTY if none
inline double rawWarp(const std::string& d, const Vec& x, const Vec& y, int r)
{
  int m = x.size(), n = y.size();
  std::vector<Vec> c(m + 1, Vec(n + 1, INFTY));
  c[0][0] = d == "chebyshev" ? 0 : 0;
  for (int i = 1; i <= m; i++) {
    for (int j = 1; j <= n; j++) {
      if (std::abs(i - j) > r) continue;
      double best = std::min(c[i - 1][j - 1], std::min(c[i - 1][j], c[i][j - 1]));
      double df = std::fabs(x[i - 1] - y[j - 1]);
      if (std::isinf(best)) continue;
      if (d == "euclidean") c[i][j] = best + df * df;
      else if (d == "manhattan") c[i][j] = best + df;
      else c[i][j] = std::max(best, df);
    }
  }
  return c[m][n];
}

inline double normWarp(const std::string& d, double raw, int m, int n)
{
  double l = std::max(m, n);
  if (d == "euclidean") return std::sqrt(raw) / (2 * l);
  if (d == "manhattan") return raw / (2 * l);
  return raw;
}

inline double warped(const std::string& d, const Vec& x, const Vec& y, double ratio)
{
  int m = x.size(), n = y.size();
  return normWarp(d, rawWarp(d, x, y, band(std::max(m, n), ratio)), m, n);
}

inline bool exactName(const std::string& d)
{
  return d == "euclidean" || d == "manhattan" || d == "chebyshev";
}

// all values attained by paths inside the band (cosine, sorensen); lengths must be tiny
inline void allPathValues(const std::string& d, const Vec& x, const Vec& y, int r, int i, int j,
                          double a, double b, double c, std::vector<double>& out)
{
  if (std::abs(i - j) > r) return;
  if (d == "cosine") { a += x[i] * x[i]; b += y[j] * y[j]; c += x[i] * y[j]; }
  else { a += std::fabs(x[i] - y[j]); b += std::fabs(x[i] + y[j]); }
  if (i + 1 == (int)x.size() && j + 1 == (int)y.size()) {
    out.push_back(d == "cosine" ? c / std::sqrt(a * b) : a / b);
    return;
  }
  if (i + 1 < (int)x.size()) allPathValues(d, x, y, r, i + 1, j, a, b, c, out);
  if (j + 1 < (int)y.size()) allPathValues(d, x, y, r, i, j + 1, a, b, c, out);
  if (i + 1 < (int)x.size() && j + 1 < (int)y.size())
    allPathValues(d, x, y, r, i + 1, j + 1, a, b, c, out);
}

// lengths of target subsequences that the band lets a query of length q meet
inline bool lengthReachable(int q, int len, double ratio)
{
  return std::abs(q - len) <= band(std::max(q, len), ratio);
}

inline Vec paa(const Vec& v, int block)
{
  Vec out;
  for (size_t i = 0; i < v.size(); i += block) {
    double s = 0;
    int n = 0;
    for (size_t j = i; j < v.size() && j < i + block; j++, n++) s += v[j];
    out.push_back(s / n);
  }
  return out;
}

} // namespace ref
#endif
