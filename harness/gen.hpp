// Generators and helpers shared by the harnesses.
#ifndef GEN_HPP
#define GEN_HPP

#include "pbt.hpp"
#include "ref.hpp"

#include <iomanip>

namespace gen {

using pbt::Src;
using pbt::Ctx;
using ref::Vec;

enum ValueMode { V_TINY, V_DYADIC, V_UNIT, V_SIGNED, V_WALK, V_SPIKY, V_LARGE, V_COUNT };

struct Values
{
  ValueMode mode;
  bool positive;   // strictly positive values only
  double walk = 0.5;
};

inline Values valueMode(Src& s, bool positive = false)
{
  static const int w[] = {20, 20, 25, 12, 13, 6, 4};
  Values v;
  v.mode = (ValueMode)s.weighted(std::vector<int>(w, w + V_COUNT));
  v.positive = positive;
  v.walk = 0.5;
  return v;
}

inline double value(Src& s, Values& v)
{
  double x = 0;
  switch (v.mode) {
    case V_TINY: x = s.range(0, 3); break;
    case V_DYADIC: x = s.range(0, 16) / 16.0; break;
    case V_UNIT: x = s.unit(); break;
    case V_SIGNED: x = (s.range(0, 20000) - 10000) / 100.0; break;
    case V_WALK: v.walk += (s.unit() - 0.5) * 0.2; x = v.walk; break;
    case V_SPIKY: x = s.chance(15) ? s.range(1, 1000) : 2; break;
    case V_LARGE: x = s.unit() * 1e6; break;
    default: break;
  }
  if (v.positive) x = std::fabs(x) + 0.0625;
  return x;
}

inline Vec series(Src& s, Values& v, int len)
{
  Vec r;
  for (int i = 0; i < len; i++) r.push_back(value(s, v));
  return r;
}

struct Table
{
  std::vector<Vec> rows;
  std::vector<std::string> names;  // empty = no name column
  int maxLen() const
  {
    size_t m = 0;
    for (auto& r : rows) m = std::max(m, r.size());
    return (int)m;
  }
  long subsequences() const
  {
    long t = 0;
    for (auto& r : rows) { long n = r.size(); t += n * (n - 1) / 2; }
    return t;
  }
};

struct Shape
{
  int minRows, maxRows, minLen, maxLen;
  int unevenPercent;
};

// Now and then a few long rows or many short ones instead of the usual small shape.
inline Shape scaled(Src& s, const Shape& n, int longest = 60, int most = 120, int perMille = 3)
{
  if ((int)s.below(1000) < 1000 - perMille) return n;
  if (s.chance(50)) return Shape{std::min(n.minRows, 3), 3, n.minLen, std::max(longest, n.maxLen), n.unevenPercent};
  return Shape{n.minRows, std::max(most, n.maxRows), n.minLen, std::max(n.minLen, 4), n.unevenPercent};
}

// A usual size, now and then a much larger one.
inline int scaledLimit(Src& s, int usual, int large, int perMille = 3)
{
  return (int)s.below(1000) < 1000 - perMille ? usual : large;
}

// A table; with some probability rows are repeats or shifted copies of earlier ones so that
// groups with several members and exact ties are common.
inline Table table(Src& s, const Shape& sh, Values v)
{
  Table t;
  int n = s.range(sh.minRows, sh.maxRows);
  int len = s.range(sh.minLen, sh.maxLen);
  bool uneven = s.chance(sh.unevenPercent);
  for (int i = 0; i < n; i++) {
    int l = uneven ? s.range(sh.minLen, sh.maxLen) : len;
    Vec r;
    v.walk = 0.5;
    if (i > 0 && s.chance(25)) {
      const Vec& o = t.rows[s.below(i)];
      for (int j = 0; j < l; j++) r.push_back(j < (int)o.size() ? o[j] : value(s, v));
      if (s.chance(50)) r[s.below(l)] = value(s, v);
    }
    else {
      r = series(s, v, l);
    }
    t.rows.push_back(r);
  }
  return t;
}

inline std::string num(double d)
{
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

inline std::string show(const Vec& v)
{
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) {
    char b[40];
    snprintf(b, sizeof b, "%.10g", v[i]);
    o << (i ? " " : "") << b;
  }
  o << "]";
  return o.str();
}

inline std::string show(const Table& t)
{
  std::ostringstream o;
  for (size_t i = 0; i < t.rows.size(); i++) {
    if (i >= 12) { o << "... " << t.rows.size() << " rows"; break; }
    if (!t.names.empty()) o << t.names[i] << ": ";
    o << show(t.rows[i]) << " ";
  }
  return o.str();
}

inline void writeText(const std::string& path, const std::string& text)
{
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f << text;
  f.close();
  if (!f) { fprintf(stderr, "harness cannot write %s\n", path.c_str()); _exit(65); }
}

inline std::string readText(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}

inline void writeTable(const std::string& path, const Table& t, char sep = ' ')
{
  std::string o;
  for (size_t i = 0; i < t.rows.size(); i++) {
    bool first = true;
    if (!t.names.empty()) { o += t.names[i]; first = false; }
    for (double d : t.rows[i]) {
      if (!first) o += sep;
      first = false;
      o += num(d);
    }
    o += '\n';
  }
  writeText(path, o);
}

inline double ratio(Src& s)
{
  switch (s.below(8)) {
    case 0: return 0.1;
    case 1: return 1.0;
    case 2: return 0.0;
    case 3: return 0.5;
    case 4: return s.range(0, 20) / 20.0;
    case 5: return s.range(0, 10) / 10.0;
    case 6: return 0.3;
    default: return s.unit();
  }
}

} // namespace gen
#endif
