// C12: the grouping does not depend on threads, time of day or history.
#include "grp.hpp"

using namespace grp;

static std::string listing(const Grouping& g)
{
  std::ostringstream o;
  o.precision(15);
  for (auto& gr : g.groups) {
    o << gr.length << " rep " << show(gr.rep) << " members";
    auto m = gr.members;
    std::sort(m.begin(), m.end());
    for (auto& x : m) o << " " << x.first << "," << x.second;
    o << "\n";
  }
  return o.str();
}

static void run(Src& s, Ctx& c)
{
  gStep = 0;
  gAhead += 1000;
  Case k = generate(s, scaled(s, s.chance(20) ? Shape{1, 10, 2, 20, 40} : Shape{1, 5, 1, 9, 40}));
  note(c, k);
  writeTable(c.path("d"), k.t);
  std::string base;
  int baseCount = 0;
  {
    genex::GenexAPI a;
    a.loadDataset("d", c.path("d"), " ");
    a.groupDataset("d", k.thr, k.dist, 1, k.whole);  // reports progress, none is due after that
    baseCount = a.groupDataset("d", k.thr, k.dist, 1, k.whole);
    base = listing(api::exportGroups(a, "d", c.path("g")));
  }
  genex::GenexAPI a;
  a.loadDataset("d", c.path("d"), " ");
  int rounds = s.range(1, 3);
  bool threaded = false, logged = false;
  for (int r = 0; r < rounds; r++) {
    // what happened before
    if (s.chance(40)) {
      Case o = generate(s, Shape{1, 3, 2, 6, 40});
      if (s.chance(50)) {
        writeTable(c.path("o"), o.t);
        a.loadDataset("o", c.path("o"), " ");
        a.groupDataset("o", o.thr, o.dist, o.threads, o.whole);
        if (s.chance(50)) api::refused([&] { a.getBestMatch("o", "d", 0); });
        a.unloadDataset("o");
      }
      else {
        a.groupDataset("d", o.thr, ref::NAMES[s.below(3)], o.threads, o.whole);
      }
      c.label("earlier grouping");
    }
    if (s.chance(20)) { a.setWarpingBandRatio(s.unit()); }
    static const std::vector<long> jumps = {0, 11, 9, 10, 100, 1000000};
    long j = s.pick(jumps);
    gAhead += j;
    gStep = s.chance(40) ? s.pick(std::vector<long>{3, 10, 11, 60}) : 0;
    int threads = s.weighted({20, 20, 15, 10, 10, 10, 5, 10}) + 1;
    if (s.chance(1)) threads = s.range(9, 40);
    NOTE(c, "round " << r << ": clock +" << j << " s, " << gStep.load() << " s per look, " << threads << " threads");
    int n = a.groupDataset("d", k.thr, k.dist, threads, k.whole);
    gStep = 0;
    if (j >= 10) { c.label("progress messages due"); logged = true; }
    if (threads > 1) threaded = true;
    REQUIRE(n == baseCount, "one thread gives " << baseCount << " groups, " << threads << " threads give " << n);
    std::string got = listing(api::exportGroups(a, "d", c.path("g")));
    REQUIRE(got == base, "grouping with " << threads << " threads and clock +" << j << ":\n" << got
                                          << "instead of\n" << base);
  }
  a.setWarpingBandRatio(0.1);
  if (threaded) c.label("several threads");
  if ((threaded || logged) && baseCount > 2) c.nontrivial = true;
}

PBT_MAIN("C12", run, 30, 120)
