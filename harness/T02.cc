// T02 lite thread pool
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_pool.hh>
#include <memory>
#include <optional>
#include <thread>
using Pool = cmdr::pool::thread_pool_lite;
using std::to_string;
// counters: 1..9 executions of task i; 20 tasks executing; 21 last started task; 30+i finished
static int body(int i, bool fail = false) {
  mc::cnt(20, 1);
  mc::check(mc::cnt(i, 1) == 1, "twice", "task " + to_string(i) + " was executed twice");
  mc::log(to_string(i));
  mc::point();
  mc::cnt(20, -1);
  if (fail) throw std::runtime_error("task " + to_string(i));
  return 100 + i;
}
static void ready(std::future<int> &f, int i, bool fail = false) {
  try {
    int v = f.get();
    mc::check(!fail, "no-exception", "the exception of task " + to_string(i) + " was lost");
    mc::check(v == 100 + i, "result", "task " + to_string(i) + " delivered a wrong result");
  } catch (std::runtime_error const &e) {
    mc::check(fail && e.what() == "task " + to_string(i), "exception", std::string("wrong exception: ") + e.what());
  } catch (std::exception const &e) { mc::fail("lost", "task " + to_string(i) + " was dropped: " + e.what()); }
  mc::check(mc::cnt(i) == 1, "count", "future ready but the task ran " + to_string(mc::cnt(i)) + " times");
}
static void now_ready(std::future<int> &f, int i, bool fail = false) {
  mc::check(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "pending", "task " + to_string(i) + " not finished although the pool was destroyed");
  ready(f, i, fail);
}
static void idle() { mc::check(mc::cnt(20) == 0, "still-running", "a task was executing after the pool was destroyed"); }

static void in_order() {
  std::future<int> f[3];
  {
    Pool p(1);
    for (int i = 0; i < 3; i++) f[i] = p.enqueue(body, i + 1, false);
  }
  idle();
  for (int i = 0; i < 3; i++) now_ready(f[i], i + 1);
  { std::string o; for (char c : mc::trace()) if (c > 32) o += c; mc::check(o == "123", "order", "a single worker started the tasks in the order " + o); }
}
static void destroy(int workers) {
  std::future<int> f, g;
  {
    Pool p((size_t) workers);
    f = p.enqueue([] { return body(1); });
    g = p.enqueue([](int i) { return body(i); }, 2);
  }
  idle();
  now_ready(f, 1); now_ready(g, 2);
  mc::outcome(mc::trace());
}
static void destroy1() { destroy(1); }
static void destroy2() { destroy(2); }
static void get2() {
  Pool p(2);
  auto f = p.enqueue([] { return body(1); });
  auto g = p.enqueue([] { return body(2); });
  ready(g, 2); ready(f, 1);
}
static void producers() {
  std::future<int> f, g;
  {
    Pool p(1);
    std::thread t([&] { f = p.enqueue([] { return body(1); }); });
    g = p.enqueue([] { return body(2); });
    t.join();
  }
  now_ready(f, 1); now_ready(g, 2);
}
static void throwing() {
  std::future<int> f, g;
  {
    Pool p(1);
    f = p.enqueue(body, 1, true);
    g = p.enqueue(body, 2, false);
  }
  now_ready(f, 1, true); now_ready(g, 2);
}
static void throwing2() {
  std::future<int> f, g;
  {
    Pool p(2);
    f = p.enqueue(body, 1, true);
    g = p.enqueue(body, 2, true);
  }
  now_ready(f, 1, true); now_ready(g, 2, true);
}
// a task enqueues another one while the pool may already be stopping: accepted and run, or refused with an error
static void nested(int workers) {
  std::optional<std::future<int>> g;
  bool refused = false;
  std::future<int> f;
  {
    Pool p((size_t) workers);
    f = p.enqueue([&] {
      try { g = p.enqueue([] { return body(2); }); }
      catch (std::runtime_error const &) { refused = true; }
      return body(1);
    });
  }
  idle();
  now_ready(f, 1);
  mc::check(refused != g.has_value(), "neither", "the nested task was neither accepted nor refused");
  if (g) now_ready(*g, 2);
  else mc::check(mc::cnt(2) == 0, "refused-but-run", "a refused task ran");
  mc::outcome(refused ? "refused" : "accepted");
}
static void nested1() { nested(1); }
static void nested2() { nested(2); }
static void unused() { Pool p(2); }
static void args() { // arguments are stored by value; move-only results pass through
  std::future<std::unique_ptr<int>> f;
  {
    Pool p(1);
    std::string s = "abc";
    f = p.enqueue([](std::string const &x) { return std::make_unique<int>((int) x.size()); }, s);
    s = "a longer text than before";
  }
  auto v = f.get();
  mc::check(v && *v == 3, "argument", "the task did not see the argument it was enqueued with");
}
static void released() {
  auto s = std::make_shared<int>(5);
  std::weak_ptr<int> w = s;
  {
    Pool p(1);
    auto f = p.enqueue([s = std::move(s)] { return *s; });
    mc::check(f.get() == 5, "result", "wrong result");
  }
  mc::check(w.expired(), "kept", "the task object outlives the pool");
}
int main(int argc, char **argv) {
  std::vector<mc::Test> t{{"1-worker-order", in_order, 2, 4}, {"destroy-1-worker", destroy1, 2, 4}, {"destroy-2-workers", destroy2, 2, 3}, {"get-2-workers", get2, 1, 3}, {"2-producers", producers, 2, 3},
                          {"throwing", throwing, 2, 4}, {"throwing-2-workers", throwing2, 2, 3}, {"nested-enqueue", nested1, 2, 4}, {"nested-enqueue-2-workers", nested2, 2, 3}, {"unused-pool", unused, 2, 4},
                          {"arguments", args, 2, 4}, {"task-object-lifetime", released, 2, 4}, {"destroy-1-worker-spurious", destroy1, 2, 3, true}, {"destroy-2-workers-spurious", destroy2, 1, 2, true}};
  return mc::run(argc, argv, "T02", t, "every enqueued task runs exactly once, a single worker runs them in order, destruction completes all; no race, no deadlock");
}
