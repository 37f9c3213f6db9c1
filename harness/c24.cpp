// The thread pool runs every task exactly once.
#include "pbt.hpp"
#if defined(POOL_HEADER) && !defined(PBT_FALLBACK)
#include POOL_HEADER
#else
#include "grp.hpp"
#endif

#include <atomic>
#include <memory>
#include <sched.h>

using namespace pbt;

#if !defined(POOL_HEADER) || defined(PBT_FALLBACK)
// No task pool of the expected form: its only user, grouping with several threads, has to
// process every length exactly once.
static void prop(Src& s, Ctx& c)
{
  gen::Values m = gen::valueMode(s, true);
  gen::Table t = gen::table(s, gen::Shape{1, 4, 2, 12, 30}, m);
  gen::writeTable(c.path("d"), t);
  genex::GenexAPI a;
  a.loadDataset("d", c.path("d"), " ");
  int threads = s.range(2, 12);
  NOTE(c, gen::show(t) << " threads " << threads);
  int n = a.groupDataset("d", 0.2, "euclidean", threads);
  api::Grouping g = api::exportGroups(a, "d", c.path("g"));
  REQUIRE(g.count == n, "grouping reports " << n << " groups, the export lists " << g.count);
  std::map<std::vector<int>, int> seen;
  for (auto& x : g.groups) for (auto& p : x.members) seen[{x.length, p.first, p.second}]++;
  size_t want = 0;
  for (auto& r : t.rows) for (size_t l = 2; l <= r.size(); l++) want += r.size() - l + 1;
  REQUIRE(seen.size() == want, seen.size() << " of " << want << " subsequences are in a group");
  for (auto& e : seen) REQUIRE(e.second == 1, "a subsequence is in " << e.second << " groups");
  c.nontrivial = want >= 3;
}
#else
namespace genex {}
using namespace genex;

struct Boom : std::runtime_error
{
  int id;
  Boom(int i) : std::runtime_error("boom"), id(i) {}
};

struct Task
{
  int work;      // 0 = none, 1 = yield, 2 = spin, 3 = sleep
  bool throws;
  bool viaArg;   // pass the id as an argument instead of capturing it
  int child;     // index of a task submitted from inside this one, or -1
};

static void prop(Src& s, Ctx& c)
{
  int workers = s.weighted({3, 2}) == 0 ? s.range(1, 4) : s.range(1, 12);
  int submitters = s.weighted({3, 1}) == 0 ? 1 : s.range(2, 4);
  int n = s.weighted({2, 3, 1}) == 0 ? s.range(0, 3) : s.range(1, s.chance(20) ? 200 : 30);
  bool waitFirst = s.chance(50);
  int waitEach = s.chance(30);  // ask for each result before submitting the next task
  bool yieldBetween = s.chance(40);
  std::vector<Task> tasks(n);
  for (auto& t : tasks) {
    t.work = s.weighted({6, 3, 2, 1});
    t.throws = s.chance(12);
    t.viaArg = s.chance(30);
    t.child = -1;
  }
  int top = n;
  if (waitFirst && s.chance(30)) {
    int kids = s.range(0, n / 3);
    for (int k = 0; k < kids; k++) {
      tasks[k].child = n + k;
      Task t;
      t.work = s.weighted({6, 3, 2, 1});
      t.throws = s.chance(12);
      t.viaArg = false;
      t.child = -1;
      tasks.push_back(t);
    }
  }
  int total = tasks.size();
  NOTE(c, workers << " workers, " << submitters << " submitters, " << total << " tasks, "
       << (waitFirst ? "results taken before" : "results taken after") << " destroying the pool");

  std::vector<std::atomic<int>> ran(total);
  for (auto& r : ran) r = 0;
  std::vector<std::thread::id> where(total);
  std::vector<std::future<int>> res(total);
  std::set<std::thread::id> outside;
  outside.insert(std::this_thread::get_id());
  bool rejected = false;
  {
    std::unique_ptr<ThreadPool> pool(new ThreadPool(workers));
    ThreadPool* pp = pool.get();
    auto body = [&, pp](int id) -> int {
      ran[id]++;
      where[id] = std::this_thread::get_id();
      const Task& t = tasks[id];
      if (t.work == 1) sched_yield();
      if (t.work == 2) for (volatile int k = 0; k < 2000; k = k + 1) {}
      if (t.work == 3) usleep(50);
      if (t.child >= 0) {
        int kid = t.child;
        res[kid] = pp->enqueue([&ran, &where, &tasks, kid]() -> int {
          ran[kid]++;
          where[kid] = std::this_thread::get_id();
          if (tasks[kid].throws) throw Boom(kid);
          return kid * 3 + 1;
        });
      }
      if (t.throws) throw Boom(id);
      return id * 3 + 1;
    };
    auto submit = [&](int from, int step) {
      for (int id = from; id < top; id += step) {
        if (tasks[id].viaArg) res[id] = pool->enqueue(body, id);
        else res[id] = pool->enqueue([&body, id] { return body(id); });
        if (yieldBetween) sched_yield();
        if (waitEach) res[id].wait();
      }
    };
    if (submitters == 1) submit(0, 1);
    else {
      std::vector<std::thread> th;
      for (int k = 0; k < submitters; k++) th.emplace_back(submit, k, submitters);
      for (auto& t : th) { outside.insert(t.get_id()); }
      for (auto& t : th) t.join();
    }
    if (waitFirst) {
      for (int id = 0; id < top; id++) res[id].wait();
      for (int id = top; id < total; id++) {
        REQUIRE(res[id].valid(), "a task submitted from inside a task gave no handle");
        res[id].wait();
      }
    }
    pool.reset();
  }
  std::set<std::thread::id> used;
  for (int id = 0; id < total; id++) {
    REQUIRE(ran[id] == 1, "task " << id << " of " << total << " ran " << ran[id] << " times");
    used.insert(where[id]);
    REQUIRE(!outside.count(where[id]) || submitters > 1, "task " << id << " ran on the submitting thread");
    REQUIRE(res[id].valid(), "task " << id << " has no handle");
    REQUIRE(res[id].wait_for(std::chrono::seconds(0)) == std::future_status::ready,
            "task " << id << " is not complete after the pool is gone");
    try {
      int v = res[id].get();
      REQUIRE(!tasks[id].throws, "the exception of task " << id << " did not arrive");
      REQUIRE(v == id * 3 + 1, "task " << id << " delivered " << v);
    }
    catch (const Boom& b) {
      REQUIRE(tasks[id].throws && b.id == id, "task " << id << " delivered the exception of task " << b.id);
    }
    catch (const std::future_error&) {
      REQUIRE(false, "the result of task " << id << " was abandoned");
    }
  }
  REQUIRE((int)used.size() <= workers, "tasks ran on " << used.size() << " threads, the pool has " << workers);
  if (used.size() > 1) c.label("several threads worked");
  if (submitters > 1) c.label("several submitters");
  if (total > top) c.label("nested submission");
  for (auto& t : tasks) if (t.throws) c.label("throwing task");
  c.nontrivial = workers >= 2 && total >= 3;
}

#endif

PBT_MAIN("C24", prop, 60, 60)
