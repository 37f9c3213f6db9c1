// C26: the Python module is a faithful view of the library.
#include <Python.h>

#include "session.hpp"

using namespace session;

void registerModule();

static PyObject* gShow;

// Evaluates a Python expression; the result (or the kind of exception) in a canonical text.
static const char* HELPER =
  "import struct, pygenex\n"
  "def canon(x):\n"
  "    if x is None: return 'None'\n"
  "    if isinstance(x, bool): return 'b%d' % x\n"
  "    if isinstance(x, int): return 'i%d' % x\n"
  "    if isinstance(x, float): return 'f' + struct.pack('>d', x).hex() if x == x else 'fnan'\n"
  "    if isinstance(x, str): return 's<' + x + '>'\n"
  "    if isinstance(x, tuple): return '(' + ','.join(map(canon, x)) + ')'\n"
  "    if isinstance(x, list): return '[' + ','.join(map(canon, x)) + ']'\n"
  "    if isinstance(x, dict): return '{' + ','.join(canon(k) + ':' + canon(x[k]) for k in sorted(x)) + '}'\n"
  "    return '?' + repr(type(x))\n"
  "def show(text):\n"
  "    try:\n"
  "        return canon(eval(text, {'pygenex': pygenex}))\n"
  "    except Exception as e:\n"
  "        return 'exception'\n";

static void start()
{
  if (gShow) return;
  registerModule();
  Py_Initialize();
  PyObject* m = PyImport_AddModule("__main__");
  if (PyRun_SimpleString(HELPER) != 0) _exit(65);
  gShow = PyObject_GetAttrString(m, "show");
  if (!gShow) _exit(65);
}

static std::string python(const std::string& expr)
{
  start();
  PyObject* r = PyObject_CallFunction(gShow, "s", expr.c_str());
  if (!r) { PyErr_Clear(); return "unprintable"; }
  const char* t = PyUnicode_AsUTF8(r);
  std::string o = t ? t : "unprintable";
  if (!t) PyErr_Clear();
  Py_DECREF(r);
  return o;
}

static std::string P(double d)
{
  if (std::isnan(d)) return "fnan";
  uint64_t u;
  memcpy(&u, &d, 8);
  char b[24];
  snprintf(b, sizeof b, "f%016llx", (unsigned long long)u);
  return b;
}
static std::string P(int i) { return "i" + std::to_string(i); }
static std::string P(const std::string& s) { return "s<" + s + ">"; }
static std::string P(const genex::candidate_time_series_t& h)
{
  return "{s<data>:{s<end>:" + P(h.data.getEnd()) + ",s<index>:" + P(h.data.getIndex()) + ",s<start>:" + P(h.data.getStart()) +
         "},s<dist>:" + P(h.dist) + "}";
}
template <class T> std::string L(const std::vector<T>& v)
{
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + P(v[i]);
  return o + "]";
}

// Python literals
static std::string q(const std::string& s) { return "'" + s + "'"; }
static std::string q(int i) { return std::to_string(i); }
static std::string q(double d)
{
  if (std::isinf(d)) return d > 0 ? "float('inf')" : "-float('inf')";
  std::string n = num(d);
  return n.find_first_of(".en") == std::string::npos ? n + ".0" : n;
}

struct Py
{
  Src& s;
  Ctx& c;
  GenexAPI a;
  std::vector<std::string> files, groupFiles;
  std::vector<bool> named;
  std::vector<Table> tables;
  double ratio = 0.1;
  int n = 0, good = 0, refusedCalls = 0;
  bool found = false;

  Py(Src& s, Ctx& c) : s(s), c(c) {}

  std::string name() { static const std::vector<std::string> v = {"a", "b", "set 1", ""}; return s.pick(v); }
  std::string loaded()
  {
    auto all = a.getAllDatasetInfo();
    if (all.empty() || s.chance(5)) return s.chance(70) ? name() : "nosuch";
    return all[s.below(all.size())].name;
  }
  int index(const std::string& d)
  {
    int m = 2;
    try { m = a.getDatasetInfo(d).itemCount; } catch (const genex::GenexException&) {}
    if (s.chance(4)) return s.chance(50) ? m : -1;
    return s.below(m);
  }
  void range(const std::string& d, int idx, int& st, int& en)
  {
    int len = 4;
    try { len = a.getTimeSeriesLength(d, idx); } catch (const genex::GenexException&) {}
    if (s.chance(6)) { st = s.range(-2, len + 1); en = s.range(-2, len + 2); return; }
    int l = s.range(std::min(2, len), len);
    st = s.range(0, len - l);
    en = st + l;
  }

  // optional arguments: by position as far as they go, then by keyword in any order
  struct Opt { std::string key, val; bool given; };
  std::string args(std::vector<std::string> pos, std::vector<Opt> opt)
  {
    size_t byPos = 0;
    if (s.chance(50)) while (byPos < opt.size() && opt[byPos].given) byPos++;
    else if (!opt.empty()) { int k = s.range(0, opt.size()); while ((int)byPos < k && opt[byPos].given) byPos++; }
    std::string o;
    auto add = [&](const std::string& t) { o += (o.empty() ? "" : ", ") + t; };
    for (auto& p : pos) add(p);
    for (size_t i = 0; i < byPos; i++) add(opt[i].val);
    std::vector<Opt> kw;
    for (size_t i = byPos; i < opt.size(); i++) if (opt[i].given) kw.push_back(opt[i]);
    if (s.chance(50)) std::reverse(kw.begin(), kw.end());
    for (auto& k : kw) { add(k.key + "=" + k.val); c.label("keyword"); }
    return "(" + o + ")";
  }

  template <class F> bool same(const std::string& call, F f)
  {
    std::string got = python("pygenex." + call);
    std::string want;
    try { want = f(); }
    catch (const genex::GenexException&) { want = "exception"; }
    NOTE(c, call << " -> " << got);
    REQUIRE(got == want, "pygenex." << call << " gives " << got << ", the library " << want);
    if (want == "exception") refusedCalls++;
    else good++;
    return want != "exception";
  }

  void load()
  {
    std::string nm = name();
    int k = s.below(files.size());
    std::string p = s.chance(4) ? c.path("missing") : files[k];
    bool sep = s.chance(50), mx = s.chance(40), col = s.chance(30), nmcol = named[k] ? !s.chance(5) : s.chance(30);
    int maxRows = s.range(-1, 4);
    int startCol = s.chance(80) ? 0 : 1;
    std::string seps = s.chance(80) ? " " : " ,";
    auto a1 = args({q(nm), q(p)}, {{"separators", q(seps), sep}, {"maxNumRow", q(maxRows), mx}, {"startCol", q(startCol), col},
                                   {"hasNameCol", named[k] ? "True" : "False", nmcol}});
    same("loadDataset" + a1, [&] {
      auto i = a.loadDataset(nm, p, sep ? seps : " ", mx ? maxRows : 0, col ? startCol : 0, nmcol && named[k]);
      return "{s<count>:" + P(i.itemCount) + ",s<length>:" + P(i.itemLength) + ",s<name>:" + P(nm) + "}";
    });
  }

  void step()
  {
    std::string d = loaded(), t = loaded();
    if (s.chance(40)) t = d;
    int i = index(d), st = -1, en = -1;
    switch (s.weighted({12, 3, 5, 6, 5, 5, 14, 5, 5, 3, 6, 12, 10, 10, 12, 10, 6, 10, 8, 2, 4, 4})) {
      case 0: load(); break;
      case 1: same("unloadDataset(" + q(d) + ")", [&] { a.unloadDataset(d); return std::string("None"); }); break;
      case 2: {
        std::string p = s.chance(5) ? c.path("missing/x") : c.path("o" + std::to_string(n++));
        char sep = s.chance(50) ? ',' : ' ';
        if (same("saveDataset(" + q(d) + ", " + q(p) + ", " + q(std::string(1, sep)) + ")", [&] {
              a.saveDataset(d, p + ".m", sep);
              return std::string("None");
            }))
          REQUIRE(readText(p) == readText(p + ".m"), "the saved file differs from the library's");
        break;
      }
      case 3:
        same("normalize(" + q(d) + ")", [&] {
          auto r = a.normalizeDataset(d);
          return "(" + P(r.first) + "," + P(r.second) + ")";
        });
        break;
      case 4: same("getTimeSeriesName(" + q(d) + ", " + q(i) + ")", [&] { return P(a.getTimeSeriesName(d, i)); }); break;
      case 5: same("getTimeSeriesLength(" + q(d) + ", " + q(i) + ")", [&] { return P(a.getTimeSeriesLength(d, i)); }); break;
      case 6: group(d); break;
      case 7: {
        std::string p = s.chance(5) ? c.path("missing/x") : c.path("o" + std::to_string(n++));
        if (same("saveGroups(" + q(d) + ", " + q(p) + ")", [&] { a.saveGroups(d, p + ".m"); return std::string("None"); }))
          groupFiles.push_back(p);
        break;
      }
      case 8: {
        bool bad = groupFiles.empty() || s.chance(8);
        std::string p = bad ? files[0] : s.pick(groupFiles);
        if (same("loadGroups(" + q(d) + ", " + q(p) + ")", [&] { return P(a.loadGroups(d, bad ? p : p + ".m")); })) c.label("groups loaded");
        break;
      }
      case 9: {
        std::string p = c.path("o" + std::to_string(n++));
        if (same("saveGroupsSize(" + q(d) + ", " + q(p) + ")", [&] { a.saveGroupsOld(d, p + ".m", true); return std::string("None"); }))
          REQUIRE(readText(p) == readText(p + ".m"), "the saved sizes differ from the library's");
        break;
      }
      case 10: {
        int b = s.chance(5) ? 0 : s.range(1, 4);
        same("preparePAA(" + q(d) + ", " + q(b) + ")", [&] { a.preparePAA(d, b); return std::string("None"); });
        break;
      }
      case 11: case 12: {
        bool matching = s.chance(45);
        int j = index(t), st2 = -1, en2 = -1;
        if (s.chance(80)) range(d, i, st, en);
        bool ranged = s.chance(75);
        if (ranged) range(t, j, st2, en2);
        std::string m = ref::NAMES[s.below(5)];
        if (matching || s.chance(50)) m += "_dtw";
        if (s.chance(4)) m = "nosuch";
        std::vector<std::string> pos = {q(d), q(i), q(st), q(en), q(t), q(j)};
        std::string call;
        if (matching) {
          bool g = ranged || s.chance(50);
          call = "getMatching" + args(pos, {{"start2", q(st2), g}, {"end2", q(en2), g}, {"distanceName", q(m), true}});
          same(call, [&] {
            std::string o = "[";
            bool first = true;
            for (auto& x : a.matchingBetween(d, i, st, en, t, j, st2, en2, m)) {
              o += std::string(first ? "" : ",") + "(" + P(x.first) + "," + P(x.second) + ")";
              first = false;
            }
            return o + "]";
          });
        }
        else {
          pos.push_back(q(st2));
          pos.push_back(q(en2));
          pos.push_back(q(m));
          same("distance" + args(pos, {}), [&] { return P((double)a.distanceBetween(d, i, st, en, t, j, st2, en2, m)); });
        }
        found = true;
        break;
      }
      case 13: case 14: case 15: case 16: {
        bool ranged = s.chance(60);
        if (ranged) range(d, i, st, en);
        bool open = ranged && s.chance(8);  // a start but no end
        if (open) en = -1;
        std::vector<Opt> opt = {{"start", q(st), ranged}, {"end", q(en), ranged && !open}};
        int k = s.chance(4) ? 0 : s.range(1, 5);
        int ke = k + s.range(0, 6);
        std::string m = s.chance(4) ? "nosuch" : ref::NAMES[s.below(5)];
        bool mGiven = s.chance(50);
        std::string dist = mGiven ? m : "euclidean";
        switch (s.below(4)) {
          case 0: if (same("sim" + args({q(t), q(d), q(i)}, opt), [&] { return P(a.getBestMatch(t, d, i, st, en)); })) { found = true; c.label("sim"); } break;
          case 1:
            if (same("ksim" + args({q(k), q(ke), q(t), q(d), q(i)}, opt), [&] { return L(a.getKBestMatches(k, ke, t, d, i, st, en)); })) {
              found = true;
              c.label("ksim");
            }
            break;
          case 2:
            opt.push_back({"distance", q(m), mGiven});
            if (same("ksimbf" + args({q(k), q(t), q(d), q(i)}, opt), [&] { return L(a.getKBestMatchesBruteForce(k, t, d, i, st, en, dist)); })) {
              found = true;
              c.label("ksimbf");
            }
            break;
          default:
            opt.push_back({"distance", q(m), mGiven});
            if (same("ksimpaa" + args({q(k), q(t), q(d), q(i)}, opt), [&] { return L(a.getKBestMatchesPAA(k, t, d, i, st, en, dist)); })) {
              found = true;
              c.label("ksimpaa");
            }
        }
        break;
      }
      case 17: {
        bool ranged = s.chance(70);
        if (ranged) range(d, i, st, en);
        same("getTimeSeries" + args({q(d), q(i)}, {{"start", q(st), ranged}, {"end", q(en), ranged}}),
             [&] { return L(api::values(a.getTimeSeries(d, i, st, en))); });
        break;
      }
      case 18: setRatio(); break;
      case 19:
        same("getAllDistances()", [&] {
          std::vector<std::string> v;
          for (auto& x : a.getAllDistanceInfo()) v.push_back(x.name);
          return L(v);
        });
        break;
      case 20: {
        // calls no signature accepts
        static const std::vector<std::string> bad = {"sim()", "group('a')", "loadDataset('a')", "getTimeSeries('a', 'b')", "sim('a', 'a', None)",
                                                     "ksim(1, 'a', 'a', 0)", "nosuch()", "getTimeSeries('a', 0, strat=1, end=2)", "normalize(1)",
                                                     "distance('a', 0, 0, 1, 'a', 0, 0, 1)", "group('a', 'b')", "preparePAA('a', 2.5)"};
        std::string b = s.pick(bad);
        same(b, [&] { return std::string("exception"); });
        break;
      }
      default: group(d); break;
    }
  }

  void group(const std::string& d)
  {
    double thr = s.range(0, 20) / 8.0;
    std::string m = ref::NAMES[s.below(5)];
    if (s.chance(5)) m = "nosuch";
    bool mGiven = s.chance(60), th = s.chance(40), whole = s.chance(30);
    int threads = s.range(1, 2);
    std::string w = s.chance(60) ? "True" : "False";
    same("group" + args({q(d), q(thr)}, {{"distanceName", q(m), mGiven}, {"numThreads", q(threads), th}, {"wholeSeriesOnly", w, whole}}),
         [&] { return P(a.groupDataset(d, thr, mGiven ? m : "euclidean", th ? threads : 1, whole && w == "True")); });
  }

  void setRatio()
  {
    ratio = s.range(0, 10) / 10.0;
    // seen by the module itself: a distance between two rows of known values
    std::string p = c.path("probe");
    Table t;
    t.rows = {{1, 2, 9, 3, 4, 5, 1, 7, 3, 2, 8, 6}, {2, 9, 3, 4, 5, 1, 7, 3, 2, 8, 6, 1}};
    writeTable(p, t);
    python("pygenex.loadDataset('probe', " + q(p) + ")");
    std::string r = python("pygenex.setWarpingBandRatio(" + q(ratio) + ")");
    std::string got = python("pygenex.distance('probe', 0, -1, -1, 'probe', 1, -1, -1, 'euclidean_dtw')");
    python("pygenex.unloadDataset('probe')");
    genex::setWarpingBandRatio(ratio);
    genex::TimeSeries x(t.rows[0].data(), 0, 0, 12), y(t.rows[1].data(), 1, 0, 12);
    double want = genex::getDistanceFromName("euclidean_dtw")(x, y, ref::INFTY, genex::gNoMatching);
    NOTE(c, "setWarpingBandRatio(" << ratio << ") -> " << r);
    REQUIRE(r == "None" && got == P(want), "after setWarpingBandRatio(" << ratio << ") the module's distance is " << got << ", not " << P(want));
  }
};

static void run(Src& s, Ctx& c)
{
  genex::setWarpingBandRatio(0.1);
  Py k(s, c);
  // the module keeps its datasets between cases
  struct Clean
  {
    std::vector<std::string> all{"a", "b", "set 1", "", "probe"};
    void now() { for (auto& n : all) python("pygenex.unloadDataset(" + q(n) + ")"); }
    ~Clean() { now(); genex::setWarpingBandRatio(0.1); }
  } clean;
  clean.now();
  int nf = s.range(1, 2);
  for (int i = 0; i < nf; i++) {
    Values m = valueMode(s, true);
    Table t = table(s, scaled(s, Shape{1, 4, 2, 6, 30}, 24, 30, 2), m);
    bool names = s.chance(30);
    if (names) for (size_t r = 0; r < t.rows.size(); r++) t.names.push_back("n" + std::to_string(r));
    k.files.push_back(c.path("in" + std::to_string(i)));
    k.named.push_back(names);
    writeTable(k.files.back(), t);
    NOTE(c, "in" << i << ": " << show(t));
  }
  k.load();
  if (s.chance(50)) k.load();
  if (s.chance(60)) k.group(k.loaded());
  int steps = s.range(1, 14);
  for (int i = 0; i < steps; i++) k.step();
  // the module's data at the end
  for (auto& i : k.a.getAllDatasetInfo())
    for (int r = 0; r < i.itemCount; r++)
      k.same("getTimeSeries(" + q(i.name) + ", " + q(r) + ")", [&] { return L(api::values(k.a.getTimeSeries(i.name, r, -1, -1))); });
  if (k.refusedCalls) c.label("refused");
  c.nontrivial = k.good >= 4 && k.found;
  for (int i = 0; i < k.n; i++) {
    unlink(c.path("o" + std::to_string(i)).c_str());
    unlink(c.path("o" + std::to_string(i) + ".m").c_str());
  }
}

PBT_MAIN("C26", run, 30, 0)
