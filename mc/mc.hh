// mc.hh - what a concurrency harness sees of the explorer (mcrt.cc).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {
  struct Test {
    std::string name;
    std::function<void()> body;     // executed as thread 0 of a fresh process for every schedule
    int bound_quick = 2, bound_thorough = 3; // deviation (preemption, early time-out, spurious wake-up) bound to reach at least
    bool spurious = false;          // spurious condition-variable wake-ups as deviations
    bool atomics = true;            // seq_cst atomics are scheduling points
    uint64_t cap_quick = 0, cap_thorough = 0; // the bound is raised while the next one is expected to stay within so many schedules (0: 8000 / 400000)
  };
  // observations (not instrumented, usable from any managed thread)
  void outcome(std::string const &s);          // appended to the observable outcome of this execution
  void fail(std::string const &sig, std::string const &desc); // property violated in this execution: stop it
  inline void check(bool ok, std::string const &sig, std::string const &desc) { if (!ok) fail(sig, desc); }
  int choose(int n);                           // environment choice, all n alternatives explored
  void point();                                // explicit scheduling point
  int64_t cnt(int id, int64_t add = 0);        // counters 0..63: add and return the new value
  void set(int id, int64_t v);
  int tid();
  uint64_t now_ns();                           // virtual time
  std::string trace();                         // what log() collected, in execution order
  void log(std::string const &s);
  int run(int argc, char **argv, std::string const &prop, std::vector<Test> const &tests, std::string const &rule);
  bool thorough();
}
