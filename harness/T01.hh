// T01 thread pool drivers; compiled without and with the worker-ready signal
#pragma once
#include "mc.hh"
#include <cmdr11/cmdr_pool.hh>
#include <memory>
#include <optional>
#include <stdexcept>
#include <thread>
using Pool = cmdr::pool::thread_pool;
using std::to_string;
// counters: 1..9 executions of task i; 20 tasks inside a task body now; 30+i task queued
static thread_local bool producer = false; // set on the threads of the driver
static int body(int i, bool fail = false) {
  mc::check(!producer, "not-a-pool-thread", "task " + to_string(i) + " was executed by the thread that queued it");
  mc::cnt(20, 1);
  mc::check(mc::cnt(i, 1) == 1, "twice", "task " + to_string(i) + " was executed twice");
  mc::point();
  mc::cnt(20, -1);
  if (fail) throw std::runtime_error("task " + to_string(i));
  return 100 + i;
}
static auto task(int i, bool fail = false) { return [i, fail] { return body(i, fail); }; }
static void idle(char const *when) { mc::check(mc::cnt(20) == 0, "still-running", std::string("a task was executing after ") + when); }
// the future of a task that must have run
static void must_run(std::future<int> &f, int i, bool fail = false) {
  try {
    int v = f.get();
    mc::check(!fail, "no-exception", "the exception of task " + to_string(i) + " was lost");
    mc::check(v == 100 + i, "result", "task " + to_string(i) + " delivered a wrong result");
  } catch (std::runtime_error const &e) {
    mc::check(fail && e.what() == "task " + to_string(i), "exception", std::string("wrong exception: ") + e.what());
  } catch (std::exception const &e) { mc::fail("lost", "task " + to_string(i) + " accepted by a running pool was dropped: " + e.what()); }
  mc::check(mc::cnt(i) == 1, "count", "future ready but the task ran " + to_string(mc::cnt(i)) + " times");
}
// the future of a task whose pool was joined or destroyed meanwhile: run once, or dropped and reported as such
static void ran_or_broken(std::future<int> &f, int i) {
  mc::check(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "pending", "the future of task " + to_string(i) + " never becomes ready");
  try {
    mc::check(f.get() == 100 + i && mc::cnt(i) == 1, "result", "task " + to_string(i) + " delivered a wrong result");
    mc::outcome("r");
  } catch (std::future_error const &) {
    mc::check(mc::cnt(i) == 0, "broken-but-run", "task " + to_string(i) + " ran but its future is broken");
    mc::outcome("b");
  }
}

static void one_worker_two_tasks() {
  Pool p(1);
  auto f = p.queue_task(task(1)), g = p.queue_task(task(2));
  must_run(g, 2); must_run(f, 1);
}
static void one_worker_three_tasks() {
  Pool p(1);
  auto f = p.queue_task(task(1)), g = p.queue_task(task(2)), h = p.queue_task(task(3));
  must_run(h, 3); must_run(g, 2); must_run(f, 1);
}
static void two_workers_two_tasks() {
  Pool p(2);
  auto f = p.queue_task(task(1)), g = p.queue_task(task(2));
  must_run(f, 1); must_run(g, 2);
}
static void two_producers() {
  Pool p(1);
  std::thread t([&] { producer = true; auto f = p.queue_task(task(1)); must_run(f, 1); });
  auto g = p.queue_task(task(2));
  must_run(g, 2);
  t.join();
}
static void throwing() {
  Pool p(1);
  auto f = p.queue_task(task(1, true)), g = p.queue_task(task(2));
  must_run(f, 1, true); must_run(g, 2);
  auto h = p.queue_task(task(3, true));
  must_run(h, 3, true);
}
static void throwing_join() { // a failure of one task must not keep the pool from ending
  Pool p(2);
  auto f = p.queue_task(task(1, true)), g = p.queue_task(task(2));
  must_run(f, 1, true); must_run(g, 2);
  p.join();
  idle("join()");
  mc::check(p.active_threads() == 0, "active", "active_threads() is not 0 after join()");
  mc::check(p.total_threads() == 0, "total", "threads left after join()");
}
static void nested() {
  Pool p(1);
  std::future<int> g;
  auto f = p.queue_task([&] { g = p.queue_task(task(2)); return body(1); });
  must_run(f, 1);
  must_run(g, 2);
}
static void destroy_while_queued() {
  std::future<int> f, g;
  {
    Pool p(1);
    f = p.queue_task(task(1)); g = p.queue_task(task(2));
  }
  idle("the pool was destroyed");
  ran_or_broken(f, 1); ran_or_broken(g, 2);
}
static void destroy_while_queued_2() {
  std::future<int> f, g;
  {
    Pool p(2);
    f = p.queue_task(task(1)); g = p.queue_task(task(2));
  }
  idle("the pool was destroyed");
  ran_or_broken(f, 1); ran_or_broken(g, 2);
}
static void join_while_queued() {
  std::future<int> f, g;
  {
    Pool p(1);
    f = p.queue_task(task(1)); g = p.queue_task(task(2));
    p.join();
    idle("join()");
    ran_or_broken(f, 1); ran_or_broken(g, 2);
    p.join(); // again: nothing to wait for
  }
}
static void join_running() { // what was started before join() is finished by it
  Pool p(1);
  auto f = p.queue_task([] { mc::set(40, 1); return body(1); });
  while (mc::cnt(40) == 0) std::this_thread::yield();
  p.join();
  idle("join()");
  must_run(f, 1);
}
static void queue_vs_join() { // a producer racing with join(): the future is settled at the latest when the pool is gone
  std::optional<Pool> p;
  p.emplace(1);
  std::future<int> f;
  std::thread t([&] { producer = true; f = p->queue_task(task(1)); });
  p->join();
  t.join();
  p.reset();
  idle("the pool was destroyed");
  ran_or_broken(f, 1);
}
static void after_join() {
  std::optional<Pool> p;
  p.emplace(1);
  p->join();
  auto f = p->queue_task(task(1));
  p.reset();
  ran_or_broken(f, 1);
  mc::check(mc::cnt(1) == 0, "ran-after-join", "a task ran after the pool was joined");
}
static void unused() { Pool p(2); }
static void owning() { // the task's captures are destroyed, its argument object is used once
  auto s = std::make_shared<int>(5);
  std::weak_ptr<int> w = s;
  {
    Pool p(1);
    auto f = p.queue_task([s = std::move(s)] { mc::cnt(1, 1); return *s; });
    mc::check(f.get() == 5 && mc::cnt(1) == 1, "result", "wrong result");
  }
  mc::check(w.expired(), "kept", "the task object outlives the pool");
}
static void void_tasks() {
  Pool p(2);
  auto f = p.queue_task([] { body(1); });
  auto l = [] { body(2); };
  auto const &cl = l;
  auto g = p.queue_task(cl);
  f.get(); g.get();
  mc::check(mc::cnt(1) == 1 && mc::cnt(2) == 1, "count", "a task did not run exactly once");
  mc::check(p.total_threads() == 2, "total", "total_threads() is wrong");
}
template<void (*F)()> static void main_of() { producer = true; F(); }
static std::vector<mc::Test> drivers() {
  return {{"1-worker-2-tasks", main_of<one_worker_two_tasks>, 2, 3}, {"1-worker-3-tasks", main_of<one_worker_three_tasks>, 1, 2}, {"2-workers-2-tasks", main_of<two_workers_two_tasks>, 1, 2}, {"2-producers", main_of<two_producers>, 1, 3}, {"throwing-tasks", main_of<throwing>, 2, 3},
          {"throwing-then-join", main_of<throwing_join>, 1, 2}, {"task-queues-task", main_of<nested>, 2, 3}, {"destroy-while-queued", main_of<destroy_while_queued>, 2, 4}, {"destroy-while-queued-2-workers", main_of<destroy_while_queued_2>, 1, 3},
          {"join-while-queued", main_of<join_while_queued>, 2, 4}, {"join-while-running", main_of<join_running>, 2, 4}, {"queue-beside-join", main_of<queue_vs_join>, 2, 3}, {"queue-after-join", main_of<after_join>, 2, 4}, {"unused-pool", main_of<unused>, 2, 4},
          {"task-object-lifetime", main_of<owning>, 2, 4}, {"void-tasks", main_of<void_tasks>, 1, 2}, {"destroy-while-queued-spurious", main_of<destroy_while_queued>, 1, 3, true}};
}
