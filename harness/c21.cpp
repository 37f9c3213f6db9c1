// C21: command-line sessions do what the equivalent library calls do.
#include "session.hpp"

#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace session;

int genexCli();

// ---- the terminal: lines come from the script, calls leave a mark in the output

struct Line
{
  bool eof;
  std::string text;
};
static std::vector<Line> gScript;
static size_t gNext;

extern "C" char* readline(const char*)
{
  std::cout << '\x01' << std::flush;
  if (gNext >= gScript.size()) {
    if (gNext++ > gScript.size() + 40) _exit(77);
    return nullptr;
  }
  const Line& l = gScript[gNext++];
  return l.eof ? nullptr : strdup(l.text.c_str());
}
extern "C" void add_history(const char*) {}

// ---- what a command must print

struct Expect
{
  std::string line;
  enum { SILENT, OK, FAILS, ANSWER } kind;
  std::vector<std::string> has;                       // modulo white space
  std::vector<std::pair<std::string, double>> number; // a text and the number that follows it
  bool listsHits = false;
  std::vector<Hit> hits;
  bool listsData = false;
  std::vector<genex::dataset_metadata_t> data;
  bool prints = false;
  Vec values;
  int timer = -1;  // 1: must report the time, 0: must not
};

static std::string squeeze(const std::string& s)
{
  std::string o;
  for (char ch : s) {
    bool sp = ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r';
    if (!sp) o += ch;
    else if (!o.empty() && o.back() != ' ') o += ' ';
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}

static bool near(double a, double b, double tol)
{
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + 1e-12;
}

static bool contains(const std::string& s, const std::string& x) { return s.find(x) != std::string::npos; }

static void requireSegment(const Expect& e, const std::string& raw)
{
  std::string s = squeeze(raw);
  std::string at = "'" + e.line + "' printed '" + s + "'";
  bool complains = contains(s, "Error") || contains(s, "Usage");
  if (e.kind == Expect::SILENT || e.kind == Expect::ANSWER) {
    REQUIRE(s.empty(), at << ", it should print nothing");
    return;
  }
  if (e.kind == Expect::FAILS) {
    REQUIRE(complains, at << ", it should report an error");
    return;
  }
  for (auto& h : e.has) REQUIRE(contains(s, squeeze(h)), at << ", expected '" << h << "'");
  if (e.has.empty() || !contains(e.has[0], "Usage")) REQUIRE(!complains, at << ", it should succeed");
  for (auto& n : e.number) {
    size_t p = s.rfind(n.first);
    REQUIRE(p != std::string::npos, at << ", expected '" << n.first << num(n.second) << "'");
    const char* b = s.c_str() + p + n.first.size();
    char* end = nullptr;
    double d = strtod(b, &end);
    REQUIRE(end != b && near(d, n.second, 2e-3), at << ", expected '" << n.first << num(n.second) << "'");
  }
  if (e.listsHits) {
    std::vector<Hit> got;
    for (size_t p = s.find("Timeseries "); p != std::string::npos; p = s.find("Timeseries ", p + 1)) {
      Hit h;
      REQUIRE(sscanf(s.c_str() + p, "Timeseries %d [%d, %d] - distance = %lf", &h.index, &h.start, &h.end, &h.dist) == 4,
              at << ", which has an incomplete result");
      got.push_back(h);
    }
    bool same = got.size() == e.hits.size();
    for (size_t i = 0; same && i < got.size(); i++)
      same = got[i].index == e.hits[i].index && got[i].start == e.hits[i].start && got[i].end == e.hits[i].end &&
             near(got[i].dist, e.hits[i].dist, 2e-3);
    REQUIRE(same, at << ", the library finds " << api::show(e.hits));
  }
  if (e.listsData) {
    REQUIRE(contains(s, std::to_string(e.data.size()) + " datasets loaded"), at << ", there are " << e.data.size() << " datasets");
    std::istringstream is(raw);
    std::string l;
    std::map<std::string, std::string> rows;
    while (std::getline(is, l)) {
      std::istringstream ls(l);
      std::string n;
      if (ls >> n && !contains(l, "datasets loaded")) REQUIRE(rows.insert(std::make_pair(n, squeeze(l))).second, at << ", which lists " << n << " twice");
    }
    REQUIRE(rows.size() == e.data.size(), at << ", it should list " << e.data.size() << " datasets");
    for (auto& d : e.data) {
      REQUIRE(rows.count(d.name), at << ", dataset " << d.name << " is missing");
      const std::string& r = rows[d.name];
      REQUIRE(contains(r, "Not normalized") == !d.isNormalized && contains(r, d.isNormalized ? "Normalized" : "Not normalized"),
              at << ", normalization of " << d.name << " is wrong");
      REQUIRE(contains(r, "Not grouped") == !d.isGrouped, at << ", grouping of " << d.name << " is wrong");
      if (d.isGrouped) {
        size_t p = r.find("Grouped (" + d.distance + ", TS = ");
        REQUIRE(p != std::string::npos && near(strtod(r.c_str() + r.find("TS = ") + 5, nullptr), d.threshold, 1e-4),
                at << ", " << d.name << " is grouped by " << d.distance << " at " << d.threshold);
      }
    }
  }
  if (e.prints) {
    std::istringstream is(s);
    Vec got;
    std::string w;
    while (is >> w) got.push_back(strtod(w.c_str(), nullptr));
    REQUIRE(api::sameVec(got, e.values, 1e-12), at << ", the values are " << show(e.values));
  }
  if (e.timer >= 0) REQUIRE(contains(s, "Command executed in") == (e.timer == 1), at << ", the timer is " << (e.timer ? "on" : "off"));
}

// ---- the program under generated commands

struct Cli
{
  Src& s;
  Ctx& c;
  GenexAPI a;
  std::vector<Expect> out;
  bool timer = true;
  int n = 0;
  struct File { std::string path, sep; int rows, startCol; bool names; };
  std::vector<File> files;
  std::vector<std::string> groupFiles;  // as the program sees them; ours have ".m" appended
  struct Saved { std::string theirs, ours, loadFrom; int kind; std::string groups; File f; int maxRows; };
  std::vector<Saved> saved;
  std::map<std::string, std::pair<File, int>> origin;
  int good = 0;
  bool found = false;

  Cli(Src& s, Ctx& c) : s(s), c(c) {}

  std::string name() { static const std::vector<std::string> v = {"a", "b", "set1", "x_y"}; return s.pick(v); }
  // a loaded dataset most of the time
  std::string loaded()
  {
    auto all = a.getAllDatasetInfo();
    if (all.empty() || s.chance(5)) return s.chance(70) ? name() : "nosuch";
    return all[s.below(all.size())].name;
  }
  std::string newPath() { return c.path("o" + std::to_string(n++)); }

  std::string join(const std::vector<std::string>& w)
  {
    std::string l = s.chance(10) ? "  " : "";
    for (size_t i = 0; i < w.size(); i++) l += (i ? (s.chance(10) ? "   " : " ") : "") + w[i];
    if (s.chance(10)) l += " ";
    return l;
  }

  // f fills the expectation by calling the library
  template <class F> void command(std::vector<std::string> w, F f)
  {
    Expect e;
    e.line = join(w);
    e.kind = Expect::OK;
    try { f(e); good++; }
    catch (const genex::GenexException&) { e = Expect(); e.line = join(w); e.kind = Expect::FAILS; c.label("refused"); }
    out.push_back(e);
  }
  void fails(const std::vector<std::string>& w)
  {
    Expect e;
    e.line = join(w);
    e.kind = Expect::FAILS;
    out.push_back(e);
    c.label("malformed");
  }

  static std::string str(int i) { return std::to_string(i); }

  void range(const std::string& q, int idx, int& st, int& en)
  {
    int len = 4;
    try { len = a.getTimeSeriesLength(q, idx); } catch (const genex::GenexException&) {}
    if (s.chance(6)) { st = s.range(-2, len + 1); en = s.range(-2, len + 2); return; }
    int l = s.range(std::min(2, len), len);
    st = s.range(0, len - l);
    en = st + l;
  }
  int index(const std::string& q)
  {
    int m = 2;
    try { m = a.getDatasetInfo(q).itemCount; } catch (const genex::GenexException&) {}
    if (s.chance(4)) return s.chance(50) ? m : -1;
    return s.below(m);
  }
  std::string anyDistance()
  {
    std::string d = ref::NAMES[s.below(5)];
    if (s.chance(5)) return s.chance(50) ? "nosuch" : "";
    return d;
  }

  void load()
  {
    File f = s.pick(files);
    std::string nm = name();
    int opt = s.weighted({10, 30, 20, 20, 20});
    // the last optional argument the file needs
    int need = f.names ? 4 : f.startCol ? 3 : f.sep != " " ? 1 : 0;
    if (s.chance(90)) opt = std::max(opt, need);
    std::string path = s.chance(4) ? c.path("missing") : f.path;
    std::vector<std::string> w = {"load", nm, path};
    std::string sep = " ";
    int mx = 0, col = 0;
    bool names = false;
    if (opt >= 1) { sep = f.sep; w.push_back(sep == " " ? "\\s" : sep == " ," ? "\\s," : sep); }
    if (opt >= 2) { mx = s.chance(50) ? s.range(1, 3) : s.range(-1, 6); w.push_back(str(mx)); }
    if (opt >= 3) { col = f.startCol; w.push_back(str(col)); }
    if (opt >= 4) { names = f.names; w.push_back(names ? "1" : "0"); }
    command(w, [&](Expect& e) {
      auto i = a.loadDataset(nm, path, sep, mx, col, names);
      e.has = {"Name: " + nm, "Item count: " + str(i.itemCount), "Item length: " + str(i.itemLength)};
      e.number = {{"Item count: ", (double)i.itemCount}, {"Item length: ", (double)i.itemLength}};
      File g = f;
      g.path = path; g.sep = sep; g.startCol = col; g.names = names;
      origin[nm] = std::make_pair(g, mx);
    });
  }

  void save()
  {
    std::string nm = loaded(), p = s.chance(5) ? c.path("missing/x") : newPath();
    std::vector<std::string> w = {"save", nm, p};
    char sep = ' ';
    if (s.chance(60)) { sep = s.chance(60) ? ',' : ' '; w.push_back(sep == ',' ? "," : "\\s"); }
    command(w, [&](Expect& e) {
      a.saveDataset(nm, p + ".m", sep);
      saved.push_back(Saved{p, p + ".m", "", 0, "", File(), 0});
    });
  }

  void group()
  {
    std::string nm = loaded(), d = "euclidean";
    double thr = s.range(0, 20) / 8.0;
    if (s.chance(5)) thr = -1;
    std::vector<std::string> w = {"group", nm, num(thr)};
    if (s.chance(60)) {
      d = anyDistance();
      if (d.empty()) d = "euclidean_dtw";
      w.push_back(d);
    }
    command(w, [&](Expect& e) {
      int k = a.groupDataset(nm, thr, d, 1);
      e.number = {{"Number of Groups: ", (double)k}};
      e.timer = timer;
    });
  }

  void saveGroups()
  {
    std::string nm = loaded(), p = s.chance(5) ? c.path("missing/x") : newPath();
    std::vector<std::string> w = {"saveGroups", nm, p};
    bool sizes = false;
    if (s.chance(50)) { sizes = s.chance(50); w.push_back(sizes ? "1" : "0"); }
    command(w, [&](Expect& e) {
      Saved v{p, p + ".m", "", sizes ? 0 : 1, "", File(), 0};
      if (sizes) a.saveGroupsOld(nm, p + ".m", true);
      else {
        a.saveGroups(nm, p + ".m");
        v.groups = api::canonical(api::exportGroups(a, nm, c.path("x")), false);
        v.f = origin[nm].first;
        v.maxRows = origin[nm].second;
        groupFiles.push_back(p);
      }
      saved.push_back(v);
    });
  }

  void loadGroups()
  {
    std::string nm = loaded();
    bool bad = groupFiles.empty() || s.chance(10);
    std::string p = bad ? (s.chance(50) ? c.path("missing") : files[0].path) : s.pick(groupFiles);
    command({"loadGroups", nm, p}, [&](Expect& e) {
      int k = a.loadGroups(nm, bad ? p : p + ".m");
      e.has = {str(k) + " groups loaded for dataset " + nm};
      c.label("groups loaded");
    });
  }

  void distance()
  {
    std::string n1 = loaded(), n2 = loaded();
    int i1 = index(n1), i2 = index(n2), s1, e1, s2, e2;
    range(n1, i1, s1, e1);
    range(n2, i2, s2, e2);
    if (s.chance(15)) s1 = e1 = -1;
    std::vector<std::string> w = {"distance", n1, str(i1), str(s1), str(e1), n2, str(i2), str(s2), str(e2)};
    bool given = s.chance(65);
    std::string d = anyDistance();
    if (s.chance(60) || d.empty()) d += "_dtw";
    if (given) w.push_back(d); else d = "euclidean_dtw";
    command(w, [&](Expect& e) {
      double v = a.distanceBetween(n1, i1, s1, e1, n2, i2, s2, e2, d);
      e.has = {d + " distance between"};
      e.number = {{" is ", v}};
      found = true;
    });
  }

  void search()
  {
    std::string t = loaded(), q = loaded();
    int i = index(q), k = s.chance(4) ? 0 : s.range(1, 5), ke = k, st = -1, en = -1;
    int which = s.below(3);
    bool ranged = s.chance(60), keGiven = s.chance(50);
    if (ranged) range(q, i, st, en);
    if (s.chance(10)) t = q;
    std::vector<std::string> w;
    if (which == 0) w = {"sim", t, q, str(i)};
    else w = {which == 1 ? "ksim" : "ksimBF", str(k), t, q, str(i)};
    if (ranged) { w.push_back(str(st)); w.push_back(str(en)); }
    if (which == 1 && keGiven) { ke = k + s.range(0, 8); w.push_back(str(ke)); }
    command(w, [&](Expect& e) {
      std::string at = str(i) + " [" + str(st) + ", " + str(en) + "]";
      e.has = {"Target dataset: " + t, "Query dataset: " + q, "Query time series: " + at};
      e.timer = timer;
      if (which == 0) {
        Hit h = api::hit(a.getBestMatch(t, q, i, st, en));
        e.has.push_back("Best match is time series " + str(h.index) + " [" + str(h.start) + ", " + str(h.end) + "]");
        e.number = {{"Distance = ", h.dist}};
      }
      else {
        e.listsHits = true;
        e.has.push_back("k = " + str(k));
        if (which == 1) { e.hits = api::hits(a.getKBestMatches(k, ke, t, q, i, st, en)); e.number = {{"ke = ", (double)ke}}; }
        else e.hits = api::hits(a.getKBestMatchesBruteForce(k, t, q, i, st, en));
      }
      found = true;
      c.label(which == 0 ? "sim" : which == 1 ? "ksim" : "ksimBF");
      if (which == 1 && ranged && keGiven) c.label("ksim, all arguments");
    });
  }

  void print()
  {
    std::string nm = loaded();
    int i = index(nm), st, en;
    range(nm, i, st, en);
    if (s.chance(20)) st = en = -1;
    command({"print", nm, str(i), str(st), str(en)}, [&](Expect& e) {
      e.values = api::values(a.getTimeSeries(nm, i, st, en));
      e.prints = true;
    });
  }

  void other()
  {
    switch (s.below(7)) {
      case 0:
        command({"list", "distance"}, [&](Expect& e) { for (auto& i : a.getAllDistanceInfo()) e.has.push_back(i.name + " " + i.description); });
        break;
      case 1: {
        int v = s.below(3);
        if (v == 1) timer = true;
        if (v == 2) timer = false;
        command(v == 0 ? std::vector<std::string>{"timer"} : std::vector<std::string>{"timer", v == 1 ? "on" : "off"},
                [&](Expect& e) { e.has = {timer ? "Timer is ON" : "Timer is OFF"}; });
        break;
      }
      case 2: {
        static const std::vector<std::string> all = {"load", "save", "unload", "list", "timer", "distance", "group", "saveGroups",
                                                     "loadGroups", "normalize", "sim", "ksim", "ksimBF", "print"};
        if (s.chance(30)) {
          command({"help"}, [&](Expect& e) { e.has = all; });
        }
        else {
          static const std::vector<std::string> more = {"help", "exit", "quit"};
          std::string w = s.chance(80) ? s.pick(all) : s.pick(more);
          command({"help", w}, [&](Expect& e) { e.has = {"Usage:"}; });
        }
        break;
      }
      case 3: case 4: {
        Expect e;
        e.kind = Expect::SILENT;
        static const std::vector<std::string> v = {"", "   ", "// unload a", "//", "//normalize a"};
        e.line = s.pick(v);
        out.push_back(e);
        break;
      }
      default: {
        // end of input, then a change of mind
        Expect e;
        e.kind = Expect::ANSWER;
        e.line = "\x04";
        out.push_back(e);
        static const std::vector<std::string> v = {"no", "N", "maybe", " y", "yes", "x"};
        for (int k = s.below(3); k > 0; k--) { e.line = s.pick(v); out.push_back(e); }
        e.line = "n";
        out.push_back(e);
        c.label("exit declined");
      }
    }
  }

  void malformed()
  {
    std::string nm = loaded();
    struct Cmd { const char* w; int lo, hi; std::vector<int> numeric; };
    static const std::vector<Cmd> cmds = {
      {"load", 2, 6, {4, 5, 6}}, {"save", 2, 3, {}}, {"unload", 1, 1, {}}, {"list", 1, 1, {}}, {"timer", 0, 1, {}},
      {"distance", 8, 9, {2, 3, 4, 6, 7, 8}}, {"group", 2, 3, {2}}, {"saveGroups", 2, 3, {3}}, {"loadGroups", 2, 2, {}},
      {"normalize", 1, 1, {}}, {"sim", 3, 5, {3, 4, 5}}, {"ksim", 4, 7, {1, 4, 5, 6, 7}}, {"ksimBF", 4, 6, {1, 4, 5, 6}},
      {"print", 4, 4, {2, 3, 4}}};
    static const std::vector<std::string> junk = {"x", "nine", "9999999999999", "-", "--3", ",1"},
                                          realJunk = {"x", "nine", "1e999", "-", "--3", "e5"};
    const Cmd& k = s.pick(cmds);
    // a well-formed request for existing data with one defect
    auto well = [&](int args) {
      std::vector<std::string> w = {k.w};
      std::string cmd = k.w;
      for (int i = 1; i <= args; i++) {
        bool isNum = false;
        for (int j : k.numeric) if (j == i) isNum = true;
        std::string v = nm;
        if (isNum) v = i >= 2 && (cmd == "print" || cmd == "distance") && (i == 4 || i == 8) ? "2" : cmd == "ksim" || cmd == "ksimBF" ? (i == 1 || i == 6 ? "2" : "0") : i == 5 && cmd == "sim" ? "2" : "0";
        else if ((cmd == "load" || cmd == "loadGroups") && i == 2) v = files[0].path;
        else if ((cmd == "save" || cmd == "saveGroups") && i == 2) v = c.path("junk");
        else if (cmd == "load" && i == 1) v = "fresh";
        else if (i == 3 && (cmd == "load" || cmd == "save")) v = ",";
        else if ((cmd == "group" && i == 3) || (cmd == "distance" && i == 9)) v = "euclidean";
        w.push_back(v);
      }
      return w;
    };
    switch (s.below(4)) {
      case 0:
        if (k.lo > 0) { fails(well(s.range(0, k.lo - 1))); return; }
        break;
      case 1: fails(well(k.hi + s.range(1, 2))); return;
      case 2:
        if (!k.numeric.empty()) {
          auto w = well(k.hi);
          std::string j = s.pick(std::string(k.w) == "group" ? realJunk : junk);
          w[k.numeric[s.below(k.numeric.size())]] = j;
          fails(w);
          return;
        }
        break;
      default: break;
    }
    static const std::vector<std::vector<std::string>> odd = {
      {"nosuch"}, {"Load", "a", "b"}, {"list", "datasets"}, {"list", "nosuch"}, {"timer", "maybe"}, {"timer", "ON"}, {"help", "nosuch"},
      {"help", "load", "save"}, {"LIST", "dataset"}, {"/", "x"}, {"exitt"}, {"ksimbf"}, {"exec", "a"}, {"sim", "a", "a", "0", "1"},
      {"ksimBF", "2", "a", "a", "0", "1"}};
    fails(s.pick(odd));
  }

  void listing()
  {
    command({"list", "dataset"}, [&](Expect& e) { e.listsData = true; e.data = a.getAllDatasetInfo(); });
  }

  void step()
  {
    switch (s.weighted({14, 6, 4, 10, 14, 8, 8, 12, 26, 8, 12, 14, 8})) {
      case 0: load(); break;
      case 1: save(); break;
      case 2: {
        std::string nm = loaded();
        command({"unload", nm}, [&](Expect& e) { a.unloadDataset(nm); e.has = {"Dataset " + nm + " is unloaded"}; });
        break;
      }
      case 3: listing(); break;
      case 4: group(); break;
      case 5: saveGroups(); break;
      case 6: loadGroups(); break;
      case 7: distance(); break;
      case 8: search(); break;
      case 9: print(); break;
      case 10: other(); break;
      case 11: malformed(); break;
      default: {
        std::string nm = loaded();
        command({"normalize", nm}, [&](Expect& e) { a.normalizeDataset(nm); e.has = {"Dataset " + nm + " is now normalized"}; });
      }
    }
  }
};

static void run(Src& s, Ctx& c)
{
  genex::setWarpingBandRatio(0.1);
  Cli k(s, c);
  int nf = s.range(1, 3);
  for (int i = 0; i < nf; i++) {
    Values m = valueMode(s, true);
    Table t = table(s, scaled(s, Shape{1, 4, 2, 6, 30}, 24, 30, 2), m);
    Cli::File f;
    f.path = c.path("in" + std::to_string(i));
    f.sep = std::vector<std::string>{" ", ",", " ,"}[s.below(3)];
    f.names = s.chance(30);
    f.startCol = s.chance(25) ? s.range(1, 2) : 0;
    f.rows = t.rows.size();
    std::string text;
    for (size_t r = 0; r < t.rows.size(); r++) {
      std::vector<std::string> w;
      for (int j = 0; j < f.startCol; j++) w.push_back("7");
      if (f.names) w.push_back("n" + std::to_string(r));
      for (double d : t.rows[r]) w.push_back(num(d));
      for (size_t j = 0; j < w.size(); j++) text += (j ? (f.sep == " ," ? ", " : f.sep) : "") + w[j];
      text += "\n";
    }
    writeText(f.path, text);
    NOTE(c, "file in" << i << " separators '" << f.sep << "':\n" << text);
    k.files.push_back(f);
  }
  k.load();
  if (s.chance(40)) k.load();
  if (s.chance(70)) k.group();
  if (s.chance(30)) k.saveGroups();
  int steps = s.range(1, 14);
  for (int i = 0; i < steps; i++) k.step();
  k.listing();
  // the end
  Expect e;
  switch (s.below(5)) {
    case 0: e.kind = Expect::SILENT; e.line = "exit"; k.out.push_back(e); break;
    case 1: e.kind = Expect::SILENT; e.line = "quit"; k.out.push_back(e); break;
    case 2: e.kind = Expect::ANSWER; e.line = "\x04"; k.out.push_back(e); e.line = "y"; k.out.push_back(e); break;
    case 3: e.kind = Expect::ANSWER; e.line = "\x04"; k.out.push_back(e); e.line = ""; k.out.push_back(e); break;
    default: e.kind = Expect::ANSWER; e.line = "\x04"; k.out.push_back(e); k.out.push_back(e); break;
  }
  gScript.clear();
  gNext = 0;
  for (auto& x : k.out) {
    gScript.push_back(Line{x.line == "\x04", x.line});
    NOTE(c, ">> " << (x.line == "\x04" ? "<end of input>" : x.line) << (x.kind == Expect::FAILS ? "     (must fail)" : ""));
  }
  c.nontrivial = k.good >= 4 && k.found;

  std::cout.flush();
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(65); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {40, 40};
    setrlimit(RLIMIT_CPU, &rl);
    int o = open(c.path("stdout").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int r = open(c.path("stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int z = open("/dev/null", O_RDONLY);
    if (o < 0 || r < 0 || z < 0) _exit(65);
    dup2(z, 0);
    dup2(o, 1);
    dup2(r, 2);
    int rc = 78;
    try { rc = genexCli(); } catch (...) { _exit(79); }
    std::cout.flush();
    exit(rc);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string text = readText(c.path("stdout"));
  std::vector<std::string> seg;
  {
    std::string cur;
    for (char ch : text) {
      if (ch == '\x01') { seg.push_back(cur); cur.clear(); }
      else cur += ch;
    }
    seg.push_back(cur);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 65) _exit(65);
  std::string err = readText(c.path("stderr"));
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ends with " << (WIFEXITED(st) ? "exit status " : "signal ")
          << (WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)) << " after '"
          << (seg.size() >= 2 && seg.size() - 2 < k.out.size() ? k.out[seg.size() - 2].line : "") << "' " << err.substr(0, 3000));
  for (size_t i = 0; i < k.out.size() && i + 1 < seg.size(); i++) requireSegment(k.out[i], seg[i + 1]);
  REQUIRE(seg.size() == k.out.size() + 1, "the session reads " << seg.size() - 1 << " lines, it should end after " << k.out.size());
  for (auto& f : k.saved) {
    if (f.kind == 0) {
      REQUIRE(readText(f.theirs) == readText(f.ours), "the file saved by the program differs from the library's: '"
              << readText(f.theirs) << "' and '" << readText(f.ours) << "'");
    }
    else {
      GenexAPI b;
      b.loadDataset("d", f.f.path, f.f.sep, f.maxRows, f.f.startCol, f.f.names);
      b.loadGroups("d", f.theirs);
      REQUIRE(api::canonical(api::exportGroups(b, "d", c.path("x")), false) == f.groups, "the saved groups are not those of the dataset");
    }
  }
  for (auto& f : k.saved) { unlink(f.theirs.c_str()); unlink(f.ours.c_str()); }
}

PBT_MAIN("C21", run, 30, 120)
