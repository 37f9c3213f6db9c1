// Histories over TimeSeries objects with a shadow model of every object.
#ifndef SLOTS_HPP
#define SLOTS_HPP

#include "api.hpp"
#include "TimeSeries.hpp"

#include <memory>

namespace slots {

using pbt::Src;
using ref::Vec;

static const int N = 5, BUFS = 2, BUFLEN = 12;

enum Kind { NEW_OWNED, NEW_VIEW, NEW_PTR, COPY, ASSIGN, SELF, MOVE, ADD, WRITE, WRITE_BUF, DROP, KINDS };

struct Op
{
  Kind kind;
  int a, b;        // slots
  int buf, index, start, end;
  double value;
};

inline double smallValue(Src& s)
{
  switch (s.below(5)) {
    case 0: return s.range(0, 3);
    case 1: return 1 + s.range(0, 1) * 5e-10;    // equal within 1e-9
    case 2: return 1 + s.range(0, 1) * 1e-6;     // different
    case 3: return s.range(-100, 100) / 16.0;
    default: return s.unit() * 10 - 5;
  }
}

inline std::vector<Op> history(Src& s, int steps, bool allowEmpty)
{
  std::vector<Op> ops;
  for (int i = 0; i < steps; i++) {
    Op o;
    o.kind = (Kind)s.weighted({10, 8, 4, 10, 14, 3, 8, 6, 14, 8, 3});
    o.a = s.below(N);
    o.b = s.below(N);
    o.buf = s.below(BUFS);
    o.index = s.range(0, 4);
    o.start = s.range(0, BUFLEN - 1);
    o.end = s.range(o.start + (allowEmpty ? 0 : 1), BUFLEN);
    o.value = smallValue(s);
    ops.push_back(o);
  }
  return ops;
}

struct Shadow
{
  bool owned = true;
  int buf = 0;
  int index = 0, start = 0, end = 0;
  Vec own;
  int length() const { return end - start; }
};

struct World
{
  std::unique_ptr<genex::TimeSeries> slot[N];
  Shadow shadow[N];
  std::vector<double> buffer[BUFS], model[BUFS];

  World()
  {
    for (int b = 0; b < BUFS; b++)
      for (int i = 0; i < BUFLEN; i++) {
        double v = (i * 7 + b * 3) % 5;
        buffer[b].push_back(v);
        model[b].push_back(v);
      }
  }
  double& at(int i, int k)
  {
    Shadow& h = shadow[i];
    return h.owned ? h.own[k] : model[h.buf][h.start + k];
  }
  Vec valuesOf(int i)
  {
    Vec v;
    for (int k = 0; k < shadow[i].length(); k++) v.push_back(at(i, k));
    return v;
  }

  // returns false if the operation does not apply
  bool apply(const Op& o)
  {
    auto& A = slot[o.a];
    auto& B = slot[o.b];
    Shadow& sa = shadow[o.a];
    Shadow& sb = shadow[o.b];
    int len = o.end - o.start;
    switch (o.kind) {
      case NEW_OWNED:
        A.reset(new genex::TimeSeries(len));
        sa = Shadow();
        sa.end = len;
        sa.own.assign(len, 0);
        return true;
      case NEW_VIEW:
        A.reset(new genex::TimeSeries(buffer[o.buf].data(), o.index, o.start, o.end));
        sa = Shadow();
        sa.owned = false; sa.buf = o.buf; sa.index = o.index; sa.start = o.start; sa.end = o.end;
        return true;
      case NEW_PTR:
        A.reset(new genex::TimeSeries(buffer[o.buf].data(), o.end));
        sa = Shadow();
        sa.owned = false; sa.buf = o.buf; sa.end = o.end;
        return true;
      case COPY:
        if (!B || o.a == o.b) return false;
        A.reset(new genex::TimeSeries(*B));
        sa = sb;
        return true;
      case ASSIGN:
        if (!A || !B || o.a == o.b) return false;
        *A = *B;
        sa = sb;
        return true;
      case SELF: {
        if (!A) return false;
        genex::TimeSeries& alias = *A;
        *A = alias;
        return true;
      }
      case MOVE:
        if (!A || !B || o.a == o.b) return false;
        *A = std::move(*B);
        sa = sb;
        B.reset();
        return true;
      case ADD: {
        if (!A || !B) return false;
        if (!sa.owned && !sb.owned && sa.buf == sb.buf && sa.start != sb.start) return false;  // overlapping
        bool bad = sa.length() != sb.length();
        bool refused = api::refused([&] { *A += *B; });
        REQUIRE(refused == bad, "adding lengths " << sa.length() << " and " << sb.length()
                << (refused ? " is refused" : " is accepted"));
        if (!bad) {
          Vec add = valuesOf(o.b);
          for (int k = 0; k < sa.length(); k++) at(o.a, k) += add[k];
        }
        return true;
      }
      case WRITE:
        if (!A || sa.length() == 0) return false;
        (*A)[o.start % sa.length()] = o.value;
        at(o.a, o.start % sa.length()) = o.value;
        return true;
      case WRITE_BUF:
        buffer[o.buf][o.start] = o.value;
        model[o.buf][o.start] = o.value;
        return true;
      case DROP:
        A.reset();
        return true;
      default: return false;
    }
  }
};

inline std::string show(const Op& o)
{
  static const char* n[] = {"new owned", "new view", "new ptr", "copy", "assign", "self-assign", "move",
                            "add", "write", "write buffer", "drop"};
  std::ostringstream s;
  s << n[o.kind] << " " << o.a << " " << o.b << " buf" << o.buf << " #" << o.index << "[" << o.start << "," << o.end
    << ") " << o.value;
  return s.str();
}

} // namespace slots
#endif
