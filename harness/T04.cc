// T04 condition waits and timer_killer
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_pool.hh>
#include <stdexcept>
#include <thread>
using namespace std::chrono;
using B = cmdr::pool::conditional_wait_for_bool;
using I = cmdr::pool::conditional_wait_for_int;
using K = cmdr::pool::timer_killer;
using std::to_string;
enum { BEGUN = 1, DONE = 2, RET = 3, TIMEOUTS = 4 };
static void set_begin() { mc::cnt(BEGUN, 1); }
static void set_done() { mc::cnt(DONE, 1); }
template<class F> static void setting(F f) { set_begin(); f(); set_done(); }
static void woke(int need = 1) {
  mc::check(mc::cnt(BEGUN) >= need, "too-early", "a wait returned success after " + to_string(mc::cnt(BEGUN)) + " of " + to_string(need) + " sets");
  mc::cnt(RET, 1);
}
// a timed wait: lim_ms<0 is no limit
template<class F> static bool timed(F f, int lim_ms, int need = 1) {
  bool before = mc::cnt(DONE) >= need;
  auto t0 = mc::now_ns();
  bool ok = f();
  if (ok) woke(need);
  else {
    mc::check(lim_ms >= 0, "false-without-limit", "a wait without a time limit returned false");
    mc::check(mc::now_ns() - t0 >= uint64_t(lim_ms) * 1000000ull, "false-early", "a timed wait returned false before its limit");
    mc::check(!before, "missed-set", "a timed wait returned false although the condition had been set before it began");
    mc::cnt(TIMEOUTS, 1);
  }
  mc::outcome(ok ? "t" : "f");
  return ok;
}

template<class C> static void wait_vs_set() {
  C c;
  std::thread a([&] { setting([&] { c.set(); }); });
  c.wait();
  woke();
  a.join();
}
template<class C> static void wait_vs_set_all() {
  C c;
  std::thread a([&] { c.wait(); woke(); });
  std::thread b([&] { c.wait(); woke(); });
  setting([&] { c.set_for_all(); });
  a.join(); b.join();
  c.wait(); // stays set
  mc::check(mc::cnt(RET) == 2, "not-all", "set_for_all did not wake both waiters");
}
static void bool_set_wakes_one() {
  B c;
  std::thread a([&] { c.wait(); woke(); });
  std::thread b([&] { c.wait(); woke(); });
  setting([&] { c.set(); });
  setting([&] { c.set(); });
  a.join(); b.join();
}
static void bool_kill() {
  B c;
  std::thread a([&] { c.wait(); woke(); });
  std::thread b([&] { c.wait(); woke(); });
  setting([&] { c.kill(); });
  a.join(); b.join();
}
template<class C> static void nolimit() {
  C c;
  std::thread a([&] { setting([&] { c.set(); }); });
  timed([&] { return c.wait_for(); }, -1);
  a.join();
}
template<class C> static void nolimit_until() {
  C c;
  std::thread a([&] { setting([&] { c.set(); }); });
  timed([&] { return c.wait_until(); }, -1);
  a.join();
}
template<class C> static void limit_for() {
  C c;
  std::thread a([&] { setting([&] { c.set(); }); });
  if (!timed([&] { return c.wait_for(milliseconds(5)); }, 5)) timed([&] { return c.wait_for(microseconds(1500)); }, 1);
  a.join();
  bool ok = timed([&] { return c.wait_for(milliseconds(1)); }, 1);
  mc::check(ok, "missed-set", "a timed wait after the set returned false");
}
template<class C> static void limit_until() {
  C c;
  std::thread a([&] { setting([&] { c.set(); }); });
  timed([&] { return c.wait_until(steady_clock::now() + milliseconds(5)); }, 5);
  timed([&] { return c.wait_until(system_clock::now() + milliseconds(2)); }, 2);
  timed([&] { return c.wait_until(system_clock::now() - milliseconds(2)); }, 0);
  a.join();
}
static void never_set() {
  B c;
  mc::check(!timed([&] { return c.wait_for(milliseconds(3)); }, 3), "true-unset", "a timed wait succeeded without a set");
  K k;
  mc::check(!timed([&] { return k.wait_for(milliseconds(3)); }, 3), "true-unset", "a timed wait succeeded without a set");
  mc::check(!k.terminated(), "terminated-unset", "terminated() without kill()");
  I i(2);
  i.set();
  mc::check(!timed([&] { return i.wait_for(milliseconds(3)); }, 3, 2), "true-unset", "a counting wait succeeded before its count");
  i.set();
  set_begin(); set_begin(); set_done(); set_done();
  mc::check(timed([&] { return i.wait_for(milliseconds(3)); }, 3, 2), "missed-set", "a counting wait failed at its count");
  i.wait();
  mc::check(i.val() == 2 && i.max_val() == 2, "count", "wrong count");
}
static void int_two_setters() {
  I c(2);
  std::thread a([&] { setting([&] { c.set(); }); });
  std::thread b([&] { setting([&] { c.set(); }); });
  c.wait();
  woke(2);
  mc::check(c.wait_for(), "false-without-limit", "satisfied counting wait returned false");
  a.join(); b.join();
  mc::check(c.val() == 2, "count", "two sets counted as " + to_string(c.val()));
}
static void int_two_waiters() {
  I c(2);
  std::thread a([&] { c.wait(); woke(2); });
  std::thread b([&] { setting([&] { c.set_for_all(); }); });
  std::thread d([&] { c.wait(); woke(2); });
  setting([&] { c.set_for_all(); });
  a.join(); b.join(); d.join();
}
static void int_timed() {
  I c(2);
  std::thread a([&] { setting([&] { c.set(); }); setting([&] { c.set(); }); });
  timed([&] { return c.wait_for(milliseconds(5)); }, 5, 2);
  a.join();
  mc::check(timed([&] { return c.wait_for(milliseconds(5)); }, 5, 2), "missed-set", "a counting wait failed at its count");
}
static void setter_scope() {
  B c, d;
  std::thread a([&] {
    try {
      cmdr::pool::cw_setter<B> s(c);
      set_begin();
      throw std::runtime_error("x");
    } catch (std::runtime_error const &) {}
    { cmdr::pool::cw_setter<B> s(d); }
  });
  c.wait();
  woke();
  d.wait();
  a.join();
}
static void killer_loop() {
  K k;
  std::thread a([&] {
    int n = 0;
    while (!timed([&] { return k.wait_for(milliseconds(1)); }, 1))
      if (++n > 40) mc::fail("never-killed", "the loop kept running");
    mc::check(k.terminated(), "terminated", "terminated() is false after a wait that succeeded");
  });
  setting([&] { k.kill(); });
  a.join();
}
static void killer_query() {
  K k;
  std::thread a([&] { setting([&] { k.kill(); }); });
  bool before = mc::cnt(DONE) == 1;
  bool t = k.terminated();
  mc::check(!t || mc::cnt(BEGUN) == 1, "too-early", "terminated() before kill()");
  mc::check(t || !before, "missed-set", "terminated() false after kill() returned");
  mc::outcome(t ? "T" : "F");
  k.wait();
  woke();
  a.join();
  mc::check(k.terminated(), "missed-set", "terminated() false after kill()");
}
static void killer_two() {
  K k;
  std::thread a([&] { timed([&] { return k.wait_for(); }, -1); });
  std::thread b([&] { timed([&] { return k.wait_until(); }, -1); });
  setting([&] { k.set_for_all(); });
  a.join(); b.join();
}
int main(int argc, char **argv) {
  std::vector<mc::Test> t{
      {"bool:wait-vs-set", wait_vs_set<B>, 4, 8, true}, {"killer:wait-vs-set", wait_vs_set<K>, 4, 8, true}, {"int1:wait-vs-set", wait_vs_set<I>, 4, 8, true},
      {"bool:2-waiters-set-for-all", wait_vs_set_all<B>, 3, 5, true}, {"killer:2-waiters-set-for-all", wait_vs_set_all<K>, 2, 4}, {"int1:2-waiters-set-for-all", wait_vs_set_all<I>, 2, 4},
      {"bool:2-waiters-2-sets", bool_set_wakes_one, 3, 5}, {"bool:kill", bool_kill, 3, 5},
      {"bool:wait_for()", nolimit<B>, 4, 8, true}, {"killer:wait_for()", nolimit<K>, 4, 8, true}, {"int:wait_for()", nolimit<I>, 4, 8},
      {"bool:wait_until()", nolimit_until<B>, 4, 8, true}, {"killer:wait_until()", nolimit_until<K>, 4, 8, true},
      {"bool:wait_for(t)", limit_for<B>, 4, 7, true}, {"killer:wait_for(t)", limit_for<K>, 4, 7}, {"int:wait_for(t)", limit_for<I>, 3, 6},
      {"bool:wait_until(t)", limit_until<B>, 4, 7}, {"killer:wait_until(t)", limit_until<K>, 3, 6},
      {"never-set", never_set, 3, 5, true},
      {"int2:2-setters", int_two_setters, 3, 5}, {"int2:2-waiters-2-setters", int_two_waiters, 2, 3}, {"int2:timed", int_timed, 4, 6},
      {"cw_setter", setter_scope, 3, 6}, {"killer:loop", killer_loop, 4, 6}, {"killer:terminated", killer_query, 4, 6}, {"killer:2-waiters", killer_two, 2, 4}};
  return mc::run(argc, argv, "T04", t, "waits return exactly when the condition was set or the limit passed; no set is missed; no race, no deadlock");
}
