// C29: memory taken for datasets, groupings and refused requests is given back.
#include "session.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace session;

struct Op
{
  enum Kind { LOAD, UNLOAD, UNLOAD_ALL, STEP, SAVE, SAVE_TEXT, SAVE_DATA, BEST, KBEST, KPAA, BRUTE, SIMILARITY } kind;
  std::string name, file, file2;
  Step step;
  int k = 1, row = 0, limit = 0, start = 0;
  bool names = false;
  std::string seps = " ";
};

static void perform(GenexAPI& a, const Op& o)
{
  switch (o.kind) {
    case Op::LOAD: a.loadDataset(o.name, o.file, o.seps, o.limit, o.start, o.names); break;
    case Op::UNLOAD: a.unloadDataset(o.name); break;
    case Op::UNLOAD_ALL: a.unloadAllDataset(); break;
    case Op::STEP: session::apply(a, o.name, o.step); break;
    case Op::SAVE: a.saveGroups(o.name, o.file); break;
    case Op::SAVE_TEXT: a.saveGroupsOld(o.name, o.file, o.k % 2); break;
    case Op::SAVE_DATA: a.saveDataset(o.name, o.file, ','); break;
    case Op::BEST: a.getBestMatch(o.name, o.name, o.row); break;
    case Op::KBEST: a.getKBestMatches(o.k, o.k + 3, o.name, o.name, o.row); break;
    case Op::KPAA: a.getKBestMatchesPAA(o.k, o.name, o.name, o.row, -1, -1, o.step.dist); break;
    case Op::BRUTE: a.getKBestMatchesBruteForce(o.k, o.name, o.name, o.row, -1, -1, o.step.dist); break;
    case Op::SIMILARITY: a.matchingBetween(o.name, o.row, -1, -1, o.name, 0, -1, -1, o.step.dist + "_dtw"); break;
  }
}

static int perform(GenexAPI& a, const std::vector<Op>& ops)
{
  int done = 0;
  for (auto& o : ops) {
    try { perform(a, o); done++; }
    catch (const genex::GenexException&) {}
  }
  return done;
}

// a copy of the file with something missing or altered
static void damage(Src& s, const std::string& from, const std::string& to)
{
  std::string b = readText(from);
  if (!b.empty()) switch (s.below(3)) {
    case 0: b.resize(s.below(b.size())); break;
    case 1: b[s.below(b.size())] ^= 1 << s.below(8); break;
    default: b.insert(s.below(b.size()), "7 x "); break;
  }
  writeText(to, b);
}

static const char* KIND[] = {"load", "unload", "unload all", "step", "save groups", "save groups as text", "save", "best match",
                             "k best", "k best by blocks", "brute force", "matching"};
static const char* STEP[] = {"normalize", "group", "load groups", "load groups from text", "prepare"};

static void run(Src& s, Ctx& c)
{
  genex::setWarpingBandRatio(0.1);
  // files the session uses: data, data that cannot be loaded, groups, damaged groups
  int sets = s.range(1, 3), files = 0;
  std::vector<std::string> data, groups, groupsText;
  std::vector<Table> tables;
  auto fresh = [&]() { return c.path("f" + std::to_string(files++)); };
  for (int i = 0; i < sets; i++) {
    Values m = valueMode(s, true);
    Table t = table(s, scaled(s, Shape{1, 4, 1, 7, 40}, 30, 40, 2), m);
    tables.push_back(t);
    data.push_back(fresh());
    writeTable(data.back(), t);
    NOTE(c, "file " << i << " " << show(t));
    if (s.chance(50)) {
      GenexAPI a;
      a.loadDataset("x", data.back(), " ");
      std::string dist = ref::NAMES[s.below(5)];
      a.groupDataset("x", threshold(s, t, dist), dist, 1, s.chance(20));
      groups.push_back(fresh());
      a.saveGroups("x", groups.back());
      groupsText.push_back(fresh());
      a.saveGroupsOld("x", groupsText.back(), false);
      if (s.chance(60)) {
        std::string f = fresh();
        damage(s, groups.back(), f);
        groups.push_back(f);
        f = fresh();
        damage(s, groupsText.back(), f);
        groupsText.push_back(f);
      }
    }
    if (s.chance(30)) {
      std::string f = fresh();
      damage(s, data.back(), f);
      data.push_back(f);
    }
  }
  data.push_back(c.path("missing"));
  groups.push_back(c.path("missing"));
  groupsText.push_back(s.chance(50) ? c.path("missing") : data[0]);

  std::vector<Op> ops;
  static const std::vector<std::string> names = {"a", "b", "c", "d"};
  int n = s.range(3, 14);
  for (int i = 0; i < n; i++) {
    Op o;
    o.name = s.pick(names);
    o.k = s.range(1, 5);
    o.row = s.range(0, 3);
    o.step.dist = s.chance(5) ? "nope" : ref::NAMES[s.below(5)];
    int kind = i < 2 ? 0 : s.weighted({20, 10, 2, 50, 5, 4, 3, 5, 5, 4, 4, 4});
    // mostly work on something that was loaded
    if (kind != 0 && s.chance(80)) o.name = ops[s.below(2)].name;
    o.kind = (Op::Kind)kind;
    switch (o.kind) {
      case Op::LOAD:
        o.file = s.chance(85) ? data[s.below(sets)] : s.pick(data);
        o.limit = s.chance(20) ? s.range(1, 3) : 0;
        o.start = s.chance(10) ? s.range(-1, 9) : 0;
        o.names = s.chance(15);
        if (s.chance(5)) o.seps = s.chance(50) ? "," : "";
        break;
      case Op::STEP:
        o.step.kind = (Step::Kind)s.weighted({15, 40, 20, 20, 15});
        o.step.thr = s.chance(5) ? -1 : s.chance(70) ? threshold(s, tables[s.below(tables.size())], ref::NAMES[s.below(3)]) : s.unit();
        o.step.file = o.step.kind == Step::LOAD_GROUPS_TEXT ? s.pick(groupsText) : s.pick(groups);
        o.step.threads = s.chance(90) ? 1 : s.range(0, 3);
        o.step.whole = s.chance(20);
        o.step.block = s.range(s.chance(10) ? -1 : 1, 4);
        break;
      case Op::SAVE: case Op::SAVE_TEXT: case Op::SAVE_DATA:
        o.file = s.chance(80) ? c.path("out") : s.chance(50) ? c.path("no/such/place") : "/dev/full";
        break;
      default: break;
    }
    ops.push_back(o);
    NOTE(c, KIND[kind] << " '" << o.name << "' " << (kind == Op::STEP ? STEP[o.step.kind] : "") << " " << o.file << o.step.file
              << " " << o.step.dist << " " << num(o.step.thr) << (o.step.whole ? " whole" : "") << " threads " << o.step.threads
              << " k=" << o.k << " row " << o.row << " block " << o.step.block << " limit " << o.limit << " start " << o.start
              << (o.names ? " names" : ""));
  }

  int done = 0;
  {
    GenexAPI a;
    done = perform(a, ops);
    c.label(done == n ? "nothing refused" : "something refused");
  }
  static const int ROUNDS = 5;
  // a session of its own for every round
  size_t level[ROUNDS];
  for (int r = 0; r < ROUNDS; r++) {
    { GenexAPI a; perform(a, ops); }
    level[r] = __sanitizer_get_current_allocated_bytes();
    if (r > 0 && level[r] <= level[r - 1]) break;
    REQUIRE(r + 1 < ROUNDS, "every session keeps " << level[r] - level[r - 1] << " bytes after its end");
  }
  // the same in one session that is emptied after every round
  GenexAPI a;
  bool each = s.chance(50);
  for (int r = 0; r < ROUNDS; r++) {
    perform(a, ops);
    if (each) for (auto& d : a.getAllDatasetInfo()) a.unloadDataset(d.name);
    else a.unloadAllDataset();
    level[r] = __sanitizer_get_current_allocated_bytes();
    if (r > 0 && level[r] <= level[r - 1]) break;
    REQUIRE(r + 1 < ROUNDS, "every round keeps " << level[r] - level[r - 1] << " bytes although all datasets were unloaded");
  }
  if (done >= 3 && n >= 4) c.nontrivial = true;
}

PBT_MAIN("C29", run, 30, 0)
