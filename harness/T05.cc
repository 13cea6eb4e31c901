// T05 thread-safe observables
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_common.hh>
#include <thread>
using std::to_string;
struct Ev { int n; };
using Obs = cmdr::util::observer<Ev>;
template<bool CNS> using O = cmdr::util::observable<Ev, true, CNS>;
// call counts: counter 10*event+id ; begin/end of registration marks: 40+id registered, 50+id removed
struct C : Obs {
  int id;
  std::function<void(Ev const &)> then;
  explicit C(int i, std::function<void(Ev const &)> t = nullptr) : id(i), then(std::move(t)) {}
  ~C() override { id = -1; }
  void observe(Ev const &e) override {
    mc::point();
    mc::check(id >= 0 && id < 10, "dead-observer", "a destroyed observer was notified");
    mc::check(mc::cnt(10 * e.n + id, 1) == 1, "twice", "observer " + to_string(id) + " was notified twice by emission " + to_string(e.n));
    if (then) then(e);
  }
};
using P = std::shared_ptr<Obs>;
static P mk(int id, std::function<void(Ev const &)> t = nullptr) { return std::make_shared<C>(id, std::move(t)); }
static int calls(int ev, int id) { return (int) mc::cnt(10 * ev + id); }
static void must(int ev, int id, int n) {
  mc::check(calls(ev, id) == n, n ? "not-notified" : "notified", "observer " + to_string(id) + " got emission " + to_string(ev) + " " + to_string(calls(ev, id)) + " times, expected " + to_string(n));
}

template<bool S> static void add_add() {
  O<S> o;
  P a = mk(1), b = mk(2), c = mk(3);
  o += c;
  std::thread t([&] { o += a; });
  o += b;
  t.join();
  o.emit(Ev{1});
  must(1, 1, 1); must(1, 2, 1); must(1, 3, 1);
}
template<bool S> static void add_add_weak() {
  O<S> o;
  P a = mk(1), b = mk(2);
  std::weak_ptr<Obs> wa = a, wb = b;
  std::thread t([&] { o.add_observer(wa); });
  o.add_observer(wb);
  t.join();
  o.emit(Ev{1});
  must(1, 1, 1); must(1, 2, 1);
}
template<bool S> static void add_emit() {
  O<S> o;
  P a = mk(1), b = mk(2);
  o += a;
  std::thread t([&] { o += b; mc::set(42, 1); });
  bool reg = mc::cnt(42) == 1;
  o.emit(Ev{1});
  must(1, 1, 1);
  if (reg) must(1, 2, 1);
  mc::outcome(to_string(calls(1, 2)));
  t.join();
  o.emit(Ev{2});
  must(2, 1, 1); must(2, 2, 1);
}
template<bool S> static void remove_emit() {
  O<S> o;
  P a = mk(1), b = mk(2), c = mk(3);
  o += a; o += b; o += c;
  std::thread t([&] { o -= b; mc::set(52, 1); });
  bool gone = mc::cnt(52) == 1;
  o.emit(Ev{1});
  must(1, 1, 1); must(1, 3, 1);
  if (gone) must(1, 2, 0);
  mc::outcome(to_string(calls(1, 2)));
  t.join();
  o.emit(Ev{2});
  must(2, 1, 1); must(2, 2, 0); must(2, 3, 1);
}
template<bool S> static void add_remove() {
  O<S> o;
  P a = mk(1), b = mk(2), c = mk(3);
  o += a; o += b;
  std::thread t([&] { o -= a; });
  o += c;
  t.join();
  o.emit(Ev{1});
  must(1, 1, 0); must(1, 2, 1); must(1, 3, 1);
}
template<bool S> static void remove_remove() {
  O<S> o;
  P a = mk(1), b = mk(2), c = mk(3);
  o += a; o += b; o += c;
  std::thread t([&] { o.remove_observer(a.get()); });
  o -= c;
  t.join();
  o.emit(Ev{1});
  must(1, 1, 0); must(1, 2, 1); must(1, 3, 0);
}
template<bool S> static void emit_emit() {
  O<S> o;
  P a = mk(1), b = mk(2);
  o += a; o += b;
  std::thread t([&] { o.emit(Ev{1}); });
  o.emit(Ev{2});
  t.join();
  for (int e = 1; e <= 2; e++) { must(e, 1, 1); must(e, 2, 1); }
}
template<bool S> static void expire_emit() {
  O<S> o;
  P a = mk(1), b = mk(2);
  o += a; o += b;
  std::thread t([&] { a.reset(); mc::set(51, 1); });
  bool gone = mc::cnt(51) == 1;
  o.emit(Ev{1});
  must(1, 2, 1);
  if (gone) must(1, 1, 0);
  mc::outcome(to_string(calls(1, 1)));
  t.join();
  o.emit(Ev{2});
  must(2, 1, 0); must(2, 2, 1);
}
template<bool S> static void reentrant() {
  O<S> o;
  P c = mk(3);
  P a = mk(1, [&](Ev const &e) { if (e.n == 1) o += c; });
  P b;
  b = mk(2, [&](Ev const &e) { if (e.n == 1) o -= b; });
  o += a; o += b;
  o.emit(Ev{1});
  must(1, 1, 1); must(1, 2, 1);
  o.emit(Ev{2});
  must(2, 1, 1); must(2, 2, 0); must(2, 3, 1);
}
template<bool S> static void reentrant_mt() {
  O<S> o;
  P c = mk(3), d = mk(4);
  P a = mk(1, [&](Ev const &e) { if (e.n == 1) o += c; });
  o += a;
  std::thread t([&] { o += d; });
  o.emit(Ev{1});
  must(1, 1, 1);
  t.join();
  o.emit(Ev{2});
  must(2, 1, 1); must(2, 3, 1); must(2, 4, 1);
}
template<bool S> static void scoped() {
  O<S> o;
  P a = mk(1), b = mk(2);
  o += a;
  std::thread t([&] {
    { cmdr::util::registerer<Ev, true, S> r(o, b); o.emit(Ev{1}); must(1, 2, 1); must(1, 1, 1); }
    o.emit(Ev{2});
    must(2, 2, 0); must(2, 1, 1);
  });
  o.emit(Ev{3});
  must(3, 1, 1);
  t.join();
  o.emit(Ev{4});
  must(4, 1, 1);
}
template<bool S> static void three() {
  O<S> o;
  P a = mk(1), b = mk(2), c = mk(3);
  o += a;
  std::thread t([&] { o += b; });
  std::thread u([&] { o -= a; });
  o += c;
  o.emit(Ev{1});
  must(1, 3, 1);
  t.join(); u.join();
  o.emit(Ev{2});
  must(2, 1, 0); must(2, 2, 1); must(2, 3, 1);
}
template<bool S> static void all(std::vector<mc::Test> &t, std::string const &p) {
  t.push_back({p + "add-add", add_add<S>, 3, 5});
  t.push_back({p + "add-add-weak", add_add_weak<S>, 3, 5});
  t.push_back({p + "add-emit", add_emit<S>, 3, 5});
  t.push_back({p + "remove-emit", remove_emit<S>, 3, 5});
  t.push_back({p + "add-remove", add_remove<S>, 3, 5});
  t.push_back({p + "remove-remove", remove_remove<S>, 3, 5});
  t.push_back({p + "emit-emit", emit_emit<S>, 3, 5});
  t.push_back({p + "expire-emit", expire_emit<S>, 3, 5});
  t.push_back({p + "reentrant", reentrant<S>, 2, 2});
  t.push_back({p + "reentrant-mt", reentrant_mt<S>, 3, 5});
  t.push_back({p + "scoped-registration", scoped<S>, 3, 4});
  t.push_back({p + "three-threads", three<S>, 2, 4});
}
int main(int argc, char **argv) {
  std::vector<mc::Test> t;
  all<true>(t, "cns:");
  all<false>(t, "lock:");
  return mc::run(argc, argv, "T05", t, "every observer registered before and not removed during an emission is notified exactly once; none removed before or never registered is; no race, no deadlock");
}
