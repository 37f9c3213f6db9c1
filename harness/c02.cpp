// Saving then loading a dataset is lossless.
#include "api.hpp"

using namespace pbt;

static double anyDouble(Src& s)
{
  switch (s.below(7)) {
    case 0: return s.range(-5, 5);
    case 1: return s.unit();
    case 2: return (s.unit() - 0.5) * 1e6;
    case 3: return s.range(-1000, 1000) / 100.0;
    case 4: {  // any finite bit pattern
      uint64_t b = (s.below(1ULL << 32) << 32) | s.below(1ULL << 32);
      double d;
      memcpy(&d, &b, 8);
      return std::isfinite(d) ? d : 1.0;
    }
    case 5: return std::ldexp(1.0 + s.unit(), s.range(-1060, 1000));
    default: return s.chance(50) ? -0.0 : 123456.789012345;
  }
}

static bool sameBits(double a, double b) { return memcmp(&a, &b, 8) == 0; }

static void prop(Src& s, Ctx& c)
{
  genex::GenexAPI a;
  bool names = s.chance(50);
  bool uneven = s.chance(50);
  int n = s.range(0, gen::scaledLimit(s, 8, 300)), longest = n > 8 ? 10 : gen::scaledLimit(s, 10, 2000);
  int even = s.range(0, longest);
  static const char SEP[] = {' ', ',', '\t', ';', '|'};
  char in = SEP[s.below(5)], out = SEP[s.below(5)];
  gen::Table t;
  std::string text;
  for (int i = 0; i < n; i++) {
    int len = uneven ? s.range(0, longest) : even;
    ref::Vec r;
    std::string line;
    if (names && !(len == 0 && s.chance(30))) line += "n" + std::to_string(s.range(0, 99));
    for (int k = 0; k < len; k++) {
      r.push_back(anyDouble(s));
      if (!line.empty()) line += in;
      line += gen::num(r.back());
    }
    text += line + "\n";
    t.rows.push_back(r);
  }
  NOTE(c, "in '" << in << "' out '" << out << "'" << (names ? " names" : "") << "\n" << text);
  gen::writeText(c.path("f"), text);
  a.loadDataset("d", c.path("f"), std::string(1, in), 0, 0, names);
  bool normalized = false;
  if (t.maxLen() > 0 && s.chance(40)) {
    a.normalizeDataset("d");
    normalized = true;
    c.label("normalized");
  }
  std::vector<ref::Vec> before;
  std::vector<std::string> nm;
  for (int i = 0; i < n; i++) {
    before.push_back(api::values(a.getTimeSeries("d", i, -1, -1)));
    nm.push_back(a.getTimeSeriesName("d", i));
    bool finite = true;
    for (double d : before.back()) finite = finite && std::isfinite(d);
    if (!finite) throw Discard();  // min-max of values whose difference overflows
  }
  a.saveDataset("d", c.path("g"), out);
  a.loadDataset("e", c.path("g"), std::string(1, out), 0, 0, names);
  auto compare = [&](const char* who) {
    genex::dataset_metadata_t m = a.getDatasetInfo(who);
    REQUIRE(m.itemCount == n, who << " has " << m.itemCount << " rows, expected " << n);
    REQUIRE(m.itemLength == t.maxLen(), who << " has item length " << m.itemLength);
    for (int i = 0; i < n; i++) {
      ref::Vec v = api::values(a.getTimeSeries(who, i, -1, -1));
      REQUIRE(v.size() == before[i].size() && a.getTimeSeriesLength(who, i) == (int)v.size(),
              who << " row " << i << " has length " << v.size() << ", expected " << before[i].size());
      REQUIRE(a.getTimeSeriesName(who, i) == nm[i], who << " row " << i << " is named " << a.getTimeSeriesName(who, i));
      for (size_t k = 0; k < v.size(); k++)
        REQUIRE(sameBits(v[k], before[i][k]), who << " row " << i << " value " << k << " is " << v[k] << ", it was "
                << before[i][k]);
    }
  };
  compare("e");
  compare("d");
  REQUIRE(a.getDatasetInfo("d").isNormalized == normalized, "saving changes the normalized flag");
  // a second generation is identical text
  a.saveDataset("e", c.path("h"), out);
  REQUIRE(gen::readText(c.path("g")) == gen::readText(c.path("h")), "saving the loaded copy gives a different file");
  if (names) c.label("names");
  if (uneven) c.label("uneven");
  c.nontrivial = n >= 2 && t.maxLen() >= 2;
}

PBT_MAIN("C02", prop, 20, 0)
