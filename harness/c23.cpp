// Time series objects have value semantics.
#include "slots.hpp"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

using namespace pbt;
using namespace slots;

// left out where they are not there under these names
template <class T> auto average(T& t, double, int) -> decltype((double)t.average()) { return t.average(); }
template <class T> double average(T&, double want, long) { return want; }
template <class T> auto describe(T& t, const std::string&, int) -> decltype(std::string(t.getIdentifierString())) { return t.getIdentifierString(); }
template <class T> std::string describe(T&, const std::string& want, long) { return want; }

static void checkSlot(World& w, int i)
{
  genex::TimeSeries& t = *w.slot[i];
  Shadow& h = w.shadow[i];
  REQUIRE(t.getLength() == h.length() && t.getStart() == h.start && t.getEnd() == h.end && t.getIndex() == h.index,
          "slot " << i << " is #" << t.getIndex() << "[" << t.getStart() << "," << t.getEnd() << ") length "
          << t.getLength() << ", expected #" << h.index << "[" << h.start << "," << h.end << ")");
  double sum = 0, mag = 0;
  for (int k = 0; k < h.length(); k++) {
    REQUIRE(t[k] == w.at(i, k), "slot " << i << " point " << k << " is " << t[k] << ", expected " << w.at(i, k));
    sum += w.at(i, k);
    mag = std::max(mag, std::fabs(w.at(i, k)));
  }
  if (h.length() > 0) {
    double want = sum / h.length(), got = average(t, want, 0);
    REQUIRE(std::fabs(got - want) <= 1e-9 * (1 + mag), "slot " << i << " has average " << got << ", expected " << want);
  }
  std::ostringstream id;
  id << h.index << " [" << h.start << ", " << h.end << "]";
  std::string own = describe(t, id.str(), 0);
  REQUIRE(own == id.str(), "slot " << i << " identifies itself as " << own);
}

static void execute(const std::vector<Op>& ops, Ctx* c, bool check)
{
  World w;
  for (auto& o : ops) {
    bool done = w.apply(o);
    if (c && done) c->label(std::string("op ") + std::to_string((int)o.kind));
    if (!check) continue;
    for (int i = 0; i < N; i++) if (w.slot[i]) checkSlot(w, i);
    for (int b = 0; b < BUFS; b++)
      REQUIRE(w.buffer[b] == w.model[b], "external data changed unexpectedly");
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        if (!w.slot[i] || !w.slot[j]) continue;
        Vec x = w.valuesOf(i), y = w.valuesOf(j);
        bool eq = x.size() == y.size(), near = false;
        for (size_t k = 0; eq && k < x.size(); k++) {
          double d = std::fabs(x[k] - y[k]);
          if (std::fabs(d - 1e-9) < 1e-12 || std::isnan(d)) near = true;
          if (d > 1e-9) eq = false;
        }
        if (near) continue;
        bool got = *w.slot[i] == *w.slot[j];
        REQUIRE(got == eq, "slots " << i << " and " << j << " compare " << (got ? "equal" : "different") << ": "
                << gen::show(x) << " " << gen::show(y));
        if (c && eq && i != j) c->label("equal objects");
      }
  }
  for (int i = 0; i < N; i++)
    if (check && w.slot[i]) {
      genex::TimeSeries& t = *w.slot[i];
      int l = t.getLength();
      for (int k : {-1, l, l + 1, -2147483647 - 1, 2147483647})
        REQUIRE(api::refused([&] { volatile double d = t[k]; (void)d; }), "index " << k << " of a series of length " << l << " is accepted");
    }
}

static void prop(Src& s, Ctx& c)
{
  std::vector<Op> ops = history(s, s.range(1, 40), true);
  for (auto& o : ops) NOTE(c, show(o));
  execute(ops, &c, true);
  size_t before = __sanitizer_get_current_allocated_bytes();
  execute(ops, nullptr, false);
  size_t after = __sanitizer_get_current_allocated_bytes();
  REQUIRE(before == after, "memory held grows from " << before << " to " << after << " bytes");
  int n = 0;
  for (auto& o : ops) if (o.kind == COPY || o.kind == ASSIGN || o.kind == MOVE || o.kind == SELF) n++;
  c.nontrivial = n >= 2;
}

PBT_MAIN("C23", prop, 20, 0)
