// T06 singletons
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_common.hh>
#include <thread>
using std::to_string;
struct S : cmdr::util::singleton<S> {
  int a = 0, b = 0;
  explicit S(cmdr::util::singleton<S>::token) {
    mc::cnt(1, 1);
    a = 1;
    mc::point();
    b = 2;
  }
};
struct D { // with arguments
  int a = 0, b = 0;
  D(int x, int y) : a(x) { mc::cnt(1, 1); mc::point(); b = y; }
};
struct Th : cmdr::util::singleton<Th> { // the first construction fails
  int a = 0;
  explicit Th(cmdr::util::singleton<Th>::token) {
    if (mc::cnt(1, 1) == 1) throw std::runtime_error("first");
    a = 7;
  }
};
static S *use() {
  S &s = S::instance();
  mc::check(s.a == 1 && s.b == 2, "half-built", "a caller saw an instance that was not fully constructed");
  return &s;
}
static void ask(int n) {
  S *p[3];
  std::vector<std::thread> t;
  for (int i = 1; i < n; i++) t.emplace_back([&p, i] { p[i] = use(); });
  p[0] = use();
  for (auto &x : t) x.join();
  for (int i = 1; i < n; i++) mc::check(p[i] == p[0], "two-instances", "two callers got different instances");
  mc::check(mc::cnt(1) == 1, "constructed", "constructed " + to_string(mc::cnt(1)) + " times");
}
static void two() { ask(2); }
static void three() { ask(3); }
static D *dask(int k) {
  using X = cmdr::util::singleton_with_optional_construction_args<D, int, int>;
  D &d = X::instance(k, k + 10);
  mc::check(d.a != 0 && d.b == d.a + 10, "half-built", "a caller saw an instance that was not fully constructed");
  return &d;
}
static void with_args() {
  D *p = nullptr;
  std::thread t([&] { p = dask(1); });
  D *q = dask(2);
  t.join();
  mc::outcome(to_string(q->a));
  mc::check(p == q && dask(3) == q, "two-instances", "two callers got different instances");
  mc::check(mc::cnt(1) == 1, "constructed", "constructed " + to_string(mc::cnt(1)) + " times");
}
static void failing() {
  auto f = [] {
    try { mc::check(Th::instance().a == 7, "half-built", "not fully constructed"); mc::cnt(3, 1); }
    catch (std::runtime_error const &) { mc::cnt(2, 1); }
  };
  std::thread t(f);
  f();
  t.join();
  mc::check(mc::cnt(2) == 1 && mc::cnt(3) == 1 && mc::cnt(1) == 2, "retry", "a failed first construction must be reported to its caller only and retried by the next");
}
int main(int argc, char **argv) {
  return mc::run(argc, argv, "T06", {{"2-threads", two, 4, 8}, {"3-threads", three, 3, 6}, {"with-arguments", with_args, 4, 8}, {"first-construction-throws", failing, 4, 8}},
                 "one construction, one fully constructed instance for all callers, no race");
}
