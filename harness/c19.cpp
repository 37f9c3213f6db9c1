// C19: named datasets are independent and behave as if each were alone.
#include "session.hpp"

using namespace session;

static void compare(Session& S, Ctx& c, const std::string& n)
{
  const Data& d = S.sets[n];
  GenexAPI alone;
  rebuild(alone, n, d);
  std::string got = observe(S.api, n, c.path("obs")), want = observe(alone, n, c.path("obs2"));
  REQUIRE(got == want, "dataset '" << n << "' in the session:\n" << got << "alone:\n" << want);
}

static void compareQuery(Session& S, Src& s, Ctx& c)
{
  std::string t = S.anyName(s), q = S.anyName(s);
  GenexAPI alone;
  rebuild(alone, t, S.sets[t]);
  if (q != t) rebuild(alone, q, S.sets[q]);
  int r = s.below(S.sets[q].t.rows.size());
  std::string dist = ref::NAMES[s.below(3)];
  auto all = [&](GenexAPI& a) {
    std::string o;
    o += orRefused([&] { return hexHits({api::hit(a.getBestMatch(t, q, r))}); }) + "\n";
    o += orRefused([&] { return hexHits(api::hits(a.getKBestMatches(3, 5, t, q, r))); }) + "\n";
    o += orRefused([&] { return hexHits(api::hits(a.getKBestMatchesBruteForce(3, t, q, r, -1, -1, dist))); }) + "\n";
    o += orRefused([&] { return hexHits(api::hits(a.getKBestMatchesPAA(3, t, q, r, -1, -1, dist))); }) + "\n";
    o += orRefused([&] { return hex(a.distanceBetween(t, 0, -1, -1, q, r, -1, -1, dist + "_dtw")); }) + "\n";
    return o;
  };
  std::string got = all(S.api), want = all(alone);
  NOTE(c, "query '" << t << "' with '" << q << "' row " << r);
  REQUIRE(got == want, "target '" << t << "' query '" << q << "' row " << r << " in the session:\n" << got << "alone:\n" << want);
}

static void run(Src& s, Ctx& c)
{
  Session S;
  int n = s.range(3, scaledLimit(s, 16, 80)), most = n > 16 ? 20 : 4;
  int reloads = 0, changes = 0;
  std::set<std::string> gone;
  for (int i = 0; i < n; i++) {
    int op = S.sets.empty() ? 0 : s.weighted({22, 40, 12, 2, 12, 6, 6});
    switch (op) {
      case 0: {
        if ((int)S.sets.size() >= most) break;
        std::string name = S.add(s, c);
        if (gone.count(name)) { reloads++; c.label("name used again"); }
        break;
      }
      case 1: if (S.change(s, c, S.anyName(s))) changes++; break;
      case 2: {
        std::string name = S.anyName(s);
        S.api.unloadDataset(name);
        S.sets.erase(name);
        gone.insert(name);
        NOTE(c, "unload '" << name << "'");
        REQUIRE(api::refused([&] { S.api.getDatasetInfo(name); }), "dataset '" << name << "' is still there after unloading");
        break;
      }
      case 3:
        for (auto& e : S.sets) gone.insert(e.first);
        S.api.unloadAllDataset();
        S.sets.clear();
        c.label("all unloaded");
        NOTE(c, "unload all");
        break;
      case 4: compareQuery(S, s, c); break;
      case 5: {
        S.ratio = ratio(s);
        S.api.setWarpingBandRatio(S.ratio);
        NOTE(c, "band ratio " << S.ratio);
        break;
      }
      default: compare(S, c, S.anyName(s)); break;
    }
    S.requireListing();
  }
  for (auto& e : S.sets) compare(S, c, e.first);
  if (!S.sets.empty()) compareQuery(S, s, c);
  if (S.sets.size() >= 2) c.label("several datasets");
  if (changes >= 2 && (S.sets.size() >= 2 || reloads)) c.nontrivial = true;
}

PBT_MAIN("C19", run, 20, 0)
