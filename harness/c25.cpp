// C25: a save that cannot be completed is reported.
#include "session.hpp"

#include <sys/resource.h>

using namespace session;

// files may not grow beyond n bytes while this object lives
struct Quota
{
  struct rlimit old;
  Quota(rlim_t n)
  {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit r = old;
    r.rlim_cur = n;
    if (setrlimit(RLIMIT_FSIZE, &r) != 0) { fprintf(stderr, "setrlimit\n"); _exit(65); }
  }
  ~Quota() { setrlimit(RLIMIT_FSIZE, &old); }
};

static void run(Src& s, Ctx& c)
{
  GenexAPI a;
  Values m = valueMode(s);
  bool big = s.chance(12);
  Table t = big ? table(s, Shape{8, 24, 20, 40, 30}, m) : table(s, Shape{1, 5, 1, 8, 40}, m);
  if (s.chance(30)) for (size_t i = 0; i < t.rows.size(); i++) t.names.push_back("row" + std::to_string(i));
  writeTable(c.path("d"), t);
  a.loadDataset("d", c.path("d"), " ", 0, 0, !t.names.empty());
  int kind = s.below(4);
  bool whole = big ? s.chance(60) : s.chance(20);
  if (kind != 0) a.groupDataset("d", s.unit() * (m.mode == V_LARGE ? 1e5 : 1), ref::NAMES[s.below(3)], 1, whole);
  char sep = s.chance(50) ? ' ' : ',';
  auto save = [&](const std::string& f) {
    switch (kind) {
      case 0: a.saveDataset("d", f, sep); break;
      case 1: a.saveGroups("d", f); break;
      case 2: a.saveGroupsOld("d", f, false); break;
      default: a.saveGroupsOld("d", f, true); break;
    }
  };
  static const char* const kinds[] = {"dataset", "groups", "text groups", "group sizes"};
  c.label(kinds[kind]);
  std::string out = c.path("out");
  unlink(out.c_str());
  save(out);
  std::string full = readText(out);
  long size = full.size();
  NOTE(c, "save " << kinds[kind] << ", " << size << " bytes, data " << show(t));
  REQUIRE(size > 0, "an empty file is saved");
  if (size > 8192) c.label("larger than 8 KB");
  std::string state = observe(a, "d", c.path("obs"), false);

  std::vector<long> limits = {size - 1, 0, size};
  int n = s.range(1, 6);
  for (int i = 0; i < n; i++) limits.push_back(s.chance(75) ? (long)s.below(size) : size - 1 - (long)s.below(std::min(size, 20L)));
  for (int i = 0; i < 2; i++) limits.push_back(size + s.below(50));
  for (long lim : limits) {
    bool there = s.chance(50);
    if (there) writeText(out, s.chance(50) ? full : "old"); else unlink(out.c_str());
    bool failed = false;
    {
      Quota q(lim);
      failed = api::refused([&] { save(out); });
    }
    std::string got = readText(out);
    if (!failed)
      REQUIRE(got == full, "saving " << kinds[kind] << " with room for " << lim << " of " << size << " bytes reports success; "
                             << got.size() << " bytes are there");
    else
      REQUIRE(lim < size, "saving " << kinds[kind] << " with room for " << lim << " bytes fails, it needs " << size);
    if (lim < size) c.nontrivial = true;
  }
  REQUIRE(api::refused([&] { save("/dev/full"); }), "saving " << kinds[kind] << " to a full device reports success");
  REQUIRE(api::refused([&] { save(c.path("nodir/out")); }), "saving into a missing directory reports success");
  REQUIRE(observe(a, "d", c.path("obs"), false) == state, "a failed save changed the dataset");
  save(out);
  REQUIRE(readText(out) == full, "after failed saves the file is different");
}

PBT_MAIN("C25", run, 20, 0)
