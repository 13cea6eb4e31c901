// T03 message queue: every schedule of small producer/consumer programs on the real queue
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_pool.hh>
#include <memory>
#include <thread>
using Q  = cmdr::pool::threaded_message_queue<int>;
using QS = cmdr::pool::threaded_message_queue<std::unique_ptr<int>>;
using std::to_string;

// every received message is counted; no message may be received twice or invented
static void got(int v, int n) {
  mc::check(v >= 1 && v <= n, "invented", "popped a message that was never pushed: " + to_string(v));
  mc::check(mc::cnt(v, 1) == 1, "duplicated", "message " + to_string(v) + " was popped twice");
}
static void all_got(int n) {
  for (int i = 1; i <= n; i++) mc::check(mc::cnt(i) == 1, "lost", "message " + to_string(i) + " was not popped");
}

static void p2c1() {
  Q q;
  std::thread a([&] { q.emplace_back(1); });
  std::thread b([&] { q.emplace_back(2); });
  for (int i = 0; i < 2; i++) {
    auto x = q.pop_front();
    mc::check(bool(x), "nothing", "a pop without clear returned nothing");
    got(*x, 2);
    mc::outcome(to_string(*x));
  }
  all_got(2);
  mc::check(q.empty(), "not-empty", "queue not empty after all messages were popped");
  a.join(); b.join();
}
static void p1c2() {
  Q q;
  auto c = [&](char const *n) {
    auto x = q.pop_front();
    mc::check(bool(x), "nothing", "a pop without clear returned nothing");
    got(*x, 2);
    mc::outcome(n + to_string(*x));
  };
  std::thread a([&] { c("a"); });
  std::thread b([&] { c("b"); });
  q.emplace_back(1);
  q.emplace_back(2);
  a.join(); b.join();
  all_got(2);
  mc::check(q.empty(), "not-empty", "queue not empty after all messages were popped");
}
static void p2c2() {
  Q q;
  auto c = [&] {
    auto x = q.pop_front();
    mc::check(bool(x), "nothing", "a pop without clear returned nothing");
    got(*x, 2);
  };
  std::thread a(c), b(c), p([&] { q.emplace_back(2); });
  q.emplace_back(1);
  a.join(); b.join(); p.join();
  all_got(2);
}
// move-only messages arrive intact
static void owned() {
  QS q;
  std::thread a([&] { for (int i = 1; i <= 2; i++) q.emplace_back(std::make_unique<int>(i)); });
  for (int i = 0; i < 2; i++) {
    auto x = q.pop_front();
    mc::check(x && *x, "nothing", "popped an empty message");
    got(**x, 2);
  }
  a.join();
  all_got(2);
}
// clear() releases waiting consumers; whatever was popped before is popped once
static void clear_waiting() {
  Q q;
  std::thread a([&] {
    while (auto x = q.pop_front()) { got(*x, 2); mc::outcome(to_string(*x)); }
    auto y = q.pop_front();
    mc::check(!y, "after-clear", "a pop after clear() returned a message");
  });
  q.emplace_back(1);
  q.emplace_back(2);
  q.clear();
  a.join();
  mc::check(q.empty(), "not-empty", "queue not empty after clear()");
}
static void clear_two_waiting() {
  Q q;
  auto c = [&] { while (auto x = q.pop_front()) got(*x, 1); };
  std::thread a(c), b(c);
  q.emplace_back(1);
  q.clear();
  a.join(); b.join();
}
static void clear_vs_clear() {
  Q q;
  std::thread a([&] { while (auto x = q.pop_front()) got(*x, 1); });
  std::thread b([&] { q.clear(); });
  q.emplace_back(1);
  q.clear();
  a.join(); b.join();
}
static void empty_query() {
  Q q;
  std::thread a([&] { q.emplace_back(1); });
  std::thread b([&] { auto x = q.pop_front(); mc::check(bool(x), "nothing", "a pop without clear returned nothing"); got(*x, 1); mc::set(10, 1); });
  bool done = mc::cnt(10) == 1;
  bool e = q.empty();
  mc::outcome(e ? "E" : "F");
  mc::check(!done || e, "empty-wrong", "empty() is false although the only message was popped before");
  a.join(); b.join();
  mc::check(q.empty(), "not-empty", "empty() is false after everything was popped");
}
static void empty_implies_pop() {
  Q q;
  std::thread a([&] { q.emplace_back(1); });
  if (!q.empty()) { auto x = q.pop_front(); mc::check(bool(x), "nothing", "non-empty queue had nothing"); got(*x, 1); mc::outcome("early"); }
  a.join();
  mc::check(q.empty() == (mc::cnt(1) == 1), "empty-wrong", "empty() does not tell whether the message is still queued");
}
int main(int argc, char **argv) {
  std::vector<mc::Test> t{
      {"2-producers-1-consumer", p2c1, 3, 4}, {"1-producer-2-consumers", p1c2, 3, 4}, {"2-producers-2-consumers", p2c2, 2, 3},
      {"move-only-messages", owned, 3, 5}, {"clear-vs-consumer", clear_waiting, 3, 5}, {"clear-vs-2-consumers", clear_two_waiting, 2, 4},
      {"clear-vs-clear", clear_vs_clear, 2, 4}, {"empty-beside-traffic", empty_query, 2, 4}, {"empty-implies-pop", empty_implies_pop, 3, 5},
      {"1-producer-2-consumers-spurious", p1c2, 2, 3, true}, {"clear-vs-consumer-spurious", clear_waiting, 2, 3, true}};
  return mc::run(argc, argv, "T03", t, "every message is popped exactly once; only clear() ends a pop without a message; no race, no deadlock");
}
