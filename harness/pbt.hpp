// Small property-based testing engine.
//
// A case is a pure function of a sequence of integers ("choices").  In random mode the
// choices come from a seeded generator and are recorded; in replay mode they are read back.
// Shrinking (done by run.py) edits the choice sequence and replays it in a fresh process, so
// crashes, sanitizer reports and hangs shrink in the same way as failed comparisons.
#ifndef PBT_HPP
#define PBT_HPP

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

typedef uint64_t u64;

inline u64 mix(u64 x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Fail : std::runtime_error
{
  Fail(const std::string& m) : std::runtime_error(m) {}
};

// The case does not belong to the domain of the property.
struct Discard {};

static const size_t REC_MAX = 1 << 18;
struct Record
{
  volatile u64 caseIdx;
  volatile u64 n;
  volatile u64 active;
  volatile u64 choices[REC_MAX];
};

class Src
{
public:
  enum Mode { RANDOM, REPLAY, BYTES };

  Src(u64 seed, Record* rec) : mode(RANDOM), state(seed), rec(rec) { if (rec) rec->n = 0; }
  Src(const std::vector<u64>& c) : mode(REPLAY), replay(c) {}
  Src(const uint8_t* d, size_t n, Record* rec = nullptr) : mode(BYTES), bytes(d), nbytes(n), rec(rec)
  {
    if (rec) rec->n = 0;
  }

  // uniform in [0, n)
  u64 below(u64 n)
  {
    if (n <= 1) return 0;
    u64 v = 0;
    if (mode == RANDOM) {
      state += 0x9e3779b97f4a7c15ULL;
      v = mix(state) % n;
    }
    else if (mode == REPLAY) {
      v = pos < replay.size() ? replay[pos] : 0;
      pos++;
      if (v >= n) v %= n;
    }
    else {
      int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
      for (int i = 0; i < k; i++) {
        v = (v << 8) | (pos < nbytes ? bytes[pos] : 0);
        pos++;
      }
      v %= n;
    }
    if (used.size() < REC_MAX) {
      used.push_back(v);
      if (rec) {
        rec->choices[used.size() - 1] = v;
        rec->n = used.size();
      }
    }
    return v;
  }
  int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)below((u64)(hi - lo) + 1); }
  bool chance(int percent) { return below(100) >= (u64)(100 - percent); }
  double unit() { return (double)below(1ULL << 40) / (double)(1ULL << 40); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // weighted choice, returns an index; shrinks towards the first
  int weighted(const std::vector<int>& w)
  {
    int tot = 0;
    for (int x : w) tot += x;
    int r = (int)below(tot);
    for (size_t i = 0; i < w.size(); i++) {
      if (r < w[i]) return (int)i;
      r -= w[i];
    }
    return 0;
  }
  bool exhausted() const { return mode == BYTES && pos >= nbytes; }

  std::vector<u64> used;

private:
  Mode mode;
  u64 state = 0;
  std::vector<u64> replay;
  const uint8_t* bytes = nullptr;
  size_t nbytes = 0;
  size_t pos = 0;
  Record* rec = nullptr;
};

class Ctx
{
public:
  Ctx(const std::string& dir, bool describing) : dir(dir), describing(describing) {}
  std::string path(const std::string& name) const { return dir + "/" + name; }
  void label(const std::string& l) { labels.insert(l); }
  std::string dir;
  bool describing;
  bool nontrivial = false;
  std::set<std::string> labels;
  std::ostringstream desc;
};

#define NOTE(c, expr) do { if ((c).describing) { (c).desc << expr << "\n"; } } while (0)
#define REQUIRE(cond, expr)                                            \
  do { if (!(cond)) { std::ostringstream o__; o__.precision(17);        \
       o__ << expr << "   [" << #cond << "]"; throw pbt::Fail(o__.str()); } } while (0)

// The property under test, defined by each harness.
struct Property
{
  const char* id;
  void (*run)(Src&, Ctx&);
  int cpuLimit;   // CPU seconds a single case may take before it counts as not terminating
  int wallLimit;  // wall seconds, 0 = none (only for checks where a deadlock is the failure)
};
Property property();

static int gHangFd = 2;
inline void onHang(int)
{
  static const char m[] = "case does not terminate\n";
  ssize_t r = write(gHangFd, m, sizeof(m) - 1);
  (void)r;
  _exit(42);
}

inline void arm(const Property& p, int scale = 1)
{
  struct itimerval t;
  memset(&t, 0, sizeof(t));
  t.it_value.tv_sec = p.cpuLimit * scale;
  setitimer(ITIMER_PROF, &t, nullptr);
  if (p.wallLimit) alarm(p.wallLimit * scale);
}

inline u64 hashOf(const std::vector<u64>& v)
{
  u64 h = 1469598103934665603ULL;
  for (u64 x : v) h = mix(h ^ x);
  return h;
}

inline std::string jsonEscape(const std::string& s)
{
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

// 0 = passed, 1 = failed, 2 = discarded
inline int runOne(const Property& p, Src& s, Ctx& c, std::string& msg)
{
  try {
    p.run(s, c);
    return 0;
  }
  catch (const Discard&) { return 2; }
  catch (const Fail& f) { msg = f.what(); return 1; }
  catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
  catch (...) { msg = "unexpected exception of unknown type"; return 1; }
}

inline double nowSec()
{
  // only ends a search early; never part of a verdict
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

#ifndef PBT_LIBFUZZER
inline int mainImpl(int argc, char** argv)
{
  Property p = property();
  std::map<std::string, std::string> opt;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
  std::string dir = opt["--dir"];
  if (dir.empty()) { fprintf(stderr, "no --dir\n"); return 64; }
  mkdir(dir.c_str(), 0700);
  signal(SIGPROF, onHang);
  signal(SIGALRM, onHang);
  signal(SIGPIPE, SIG_IGN);

  if (cmd == "run") {
    u64 seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
    u64 worker = strtoull(opt["--worker"].c_str(), nullptr, 10);
    u64 cases = strtoull(opt["--cases"].c_str(), nullptr, 10);
    double secs = atof(opt["--secs"].c_str());
    std::string out = opt["--out"];
    int fd = open((out + ".rec").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Record)) != 0) return 64;
    Record* rec = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (rec == MAP_FAILED) return 64;
    gHangFd = open((out + ".hang").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);

    std::unordered_set<u64> distinct;
    std::map<std::string, u64> labels;
    std::vector<u64> sampleSeeds;
    u64 evals = 0, discards = 0, nontrivial = 0;
    double t0 = nowSec();
    bool capped = false;
    std::string msg;
    for (u64 i = 0; i < cases; i++) {
      if ((i & 7) == 0 && nowSec() - t0 > secs) { capped = true; break; }
      u64 cs = mix(mix(mix(seed) ^ (worker * 0x10001)) + i);
      rec->caseIdx = i;
      rec->active = 1;
      Src s(cs, rec);
      Ctx c(dir, false);
      arm(p);
      int r = runOne(p, s, c, msg);
      rec->active = 0;
      if (r == 1) {
        std::ofstream f(out + ".fail");
        f << msg << "\n";
        rec->active = 1;
        _exit(10);
      }
      evals++;
      if (r == 2) { discards++; continue; }
      for (auto& l : c.labels) labels[l]++;
      if (c.nontrivial) {
        nontrivial++;
        if (distinct.insert(hashOf(s.used)).second && sampleSeeds.size() < 40) sampleSeeds.push_back(cs);
      }
    }
    double t1 = nowSec();
    std::ostringstream samples;
    int ns = 0;
    for (size_t i = 0; i < sampleSeeds.size() && ns < 2; i += 17) {
      Src s(sampleSeeds[i], nullptr);
      Ctx c(dir, true);
      arm(p);
      int r = runOne(p, s, c, msg);
      (void)r;
      std::string d = c.desc.str();
      if (d.size() > 1500) d = d.substr(0, 1500) + " ...";
      samples << (ns++ ? "," : "") << "\"" << jsonEscape(d) << "\"";
    }
    {
      std::ofstream h(out + ".hashes", std::ios::binary);
      for (u64 x : distinct) h.write((const char*)&x, sizeof x);
    }
    std::ofstream f(out + ".json");
    f << "{\"evaluations\":" << evals << ",\"discarded\":" << discards << ",\"nontrivial\":" << nontrivial
      << ",\"distinct\":" << distinct.size() << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"secs\":" << (t1 - t0) << ",\"samples\":[" << samples.str() << "],\"labels\":{";
    bool first = true;
    for (auto& l : labels) {
      f << (first ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second;
      first = false;
    }
    f << "}}\n";
    f.close();
    return 0;
  }
  if (cmd == "replay") {
    std::ifstream f(opt["--file"]);
    std::vector<u64> ch;
    std::string line;
    while (std::getline(f, line)) {
      if (line.compare(0, 8, "choices:") != 0) continue;
      std::istringstream is(line.substr(8));
      u64 v;
      while (is >> v) ch.push_back(v);
    }
    std::vector<uint8_t> raw;
    Record* rec = nullptr;
    if (opt.count("--bytes")) {  // a libFuzzer artifact: run it and leave its choices in --rec
      std::ifstream b(opt["--bytes"], std::ios::binary);
      raw.assign(std::istreambuf_iterator<char>(b), std::istreambuf_iterator<char>());
      int fd = open(opt["--rec"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (fd < 0 || ftruncate(fd, sizeof(Record)) != 0) return 64;
      rec = (Record*)mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (rec == MAP_FAILED) return 64;
    }
    Src s = rec ? Src(raw.data(), raw.size(), rec) : Src(ch);
    Ctx c(dir, opt.count("--describe") > 0);
    std::string msg;
    arm(p);
    int r = runOne(p, s, c, msg);
    std::string d = c.desc.str();
    fprintf(stderr, "%s", d.c_str());
    fprintf(stderr, "used: %zu\n", s.used.size());
    if (r == 1) { fprintf(stderr, "FAIL: %s\n", msg.c_str()); _exit(10); }
    return 0;
  }
  fprintf(stderr, "usage: run|replay\n");
  return 64;
}
#endif

} // namespace pbt

#ifdef PBT_LIBFUZZER
#define PBT_MAIN(ID, FN, CPU, WALL)                                                  \
  pbt::Property pbt::property() { return pbt::Property{ID, FN, CPU, WALL}; }          \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)                   \
  {                                                                                  \
    static std::string dir;                                                          \
    if (dir.empty()) {                                                               \
      const char* base = getenv("PBT_SCRATCH");                                      \
      std::ostringstream o; o << (base ? base : "/tmp") << "/fz" << getpid();        \
      dir = o.str(); mkdir(dir.c_str(), 0700);                                       \
      signal(SIGPROF, pbt::onHang); signal(SIGALRM, pbt::onHang);                    \
    }                                                                                \
    pbt::Property p = pbt::property();                                               \
    pbt::Src s(d, n); pbt::Ctx c(dir, false); std::string msg;                       \
    pbt::arm(p, 3);                                                                  \
    if (pbt::runOne(p, s, c, msg) == 1) {                                            \
      const char* o = getenv("PBT_FAIL_OUT");                                        \
      std::ofstream f(o ? o : "/dev/null");                                          \
      f << "choices:"; for (auto v : s.used) f << " " << v; f << "\n" << msg << "\n"; \
      f.close(); abort();                                                            \
    }                                                                                \
    return 0;                                                                        \
  }
#else
#define PBT_MAIN(ID, FN, CPU, WALL)                                                  \
  pbt::Property pbt::property() { return pbt::Property{ID, FN, CPU, WALL}; }          \
  int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
#endif

#endif
