// S03 concurrent use of the option store
// KIND: mc
#include "mc.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_var_t.hh>
#include <thread>
using Store = cmdr::vars::store;
using std::to_string;
static void is(Store &s, char const *k, int v) {
  mc::check(s.has("", k), "lost-key", std::string("key ") + k + " is missing");
  auto &x = s.get_raw(k);
  mc::check(x.has_value() && x.type() == typeid(int), "no-value", std::string("key ") + k + " has no int value");
  mc::check(x.as<int>() == v, "wrong-value", std::string("key ") + k + " has value " + to_string(x.as<int>()) + ", expected " + to_string(v));
}
static int any_of(Store &s, char const *k, int a, int b) {
  auto &x = s.get_raw(k);
  mc::check(x.has_value() && x.type() == typeid(int), "no-value", std::string("key ") + k + " has no int value");
  int v = x.as<int>();
  mc::check(v == a || v == b, "wrong-value", std::string("key ") + k + " has value " + to_string(v));
  return v;
}
static void siblings() {
  Store s;
  std::thread t([&] { s.set_raw("a.b", 1); });
  s.set_raw("a.c", 2);
  t.join();
  is(s, "a.b", 1); is(s, "a.c", 2);
}
static void deep_siblings() {
  Store s;
  std::thread t([&] { s.set_raw("a.b.c", 1); s.set_raw("a.x", 4); });
  s.set_raw("a.b.d", 2);
  s.set_raw("a.b.e", 3);
  t.join();
  is(s, "a.b.c", 1); is(s, "a.b.d", 2); is(s, "a.b.e", 3); is(s, "a.x", 4);
}
static void leaf_and_branch() {
  Store s;
  std::thread t([&] { s.set_raw("a", 1); });
  s.set_raw("a.b", 2);
  t.join();
  is(s, "a", 1); is(s, "a.b", 2);
}
static void same_key() {
  Store s;
  std::thread t([&] { s.set_raw("a.b", 1); });
  s.set_raw("a.b", 2);
  t.join();
  mc::outcome(to_string(any_of(s, "a.b", 1, 2)));
}
static void overwrite() {
  Store s;
  s.set_raw("a.b", 9);
  std::thread t([&] { s.set_raw("a.b", 1); });
  s.set_raw("a.b", 2);
  t.join();
  mc::outcome(to_string(any_of(s, "a.b", 1, 2)));
}
static void set_vs_get() {
  Store s;
  s.set_raw("a.b", 7);
  std::thread t([&] { for (char const *k : {"a.c", "d", "a.e.f", "g.h"}) s.set_raw(k, 1); });
  is(s, "a.b", 7);
  is(s, "a.b", 7);
  t.join();
  is(s, "a.c", 1); is(s, "d", 1); is(s, "a.e.f", 1); is(s, "g.h", 1); is(s, "a.b", 7);
}
static void set_vs_has() {
  Store s;
  std::thread t([&] { s.set_raw("a.b", 1); mc::set(1, 1); s.set_raw("a.c", 2); });
  bool done = mc::cnt(1) == 1;
  bool h = s.has("a", "b");
  bool n = s.has("", "a.z");
  mc::check(h || !done, "lost-key", "has() is false after the set returned");
  mc::check(!n, "invented", "has() is true for a key that was never set");
  if (h) is(s, "a.b", 1);
  mc::outcome(h ? "1" : "0");
  t.join();
}
static void set_vs_get_missing() {
  Store s;
  std::thread t([&] { s.set_raw("a.b", 1); });
  auto &x = s.get_raw("a.c");
  mc::check(!x.has_value(), "invented", "a key that was never set has a value");
  t.join();
  is(s, "a.b", 1);
}
static void set_vs_prefixed() {
  Store s;
  s.set_raw_p("p.q", "r", 5);
  std::thread t([&] { s.set_raw_p("p.q", "s", 1); s.set_raw_p("p", "t", 2); });
  auto &x = s.get_raw_p("p.q", "r");
  mc::check(x.has_value() && x.as<int>() == 5, "wrong-value", "prefixed get of another key failed");
  mc::check(s.has("p.q", "r"), "lost-key", "prefixed has of another key failed");
  t.join();
  is(s, "p.q.r", 5); is(s, "p.q.s", 1); is(s, "p.t", 2);
}
static void set_vs_subtree() {
  Store s;
  s.set_raw("a.b", 5);
  std::thread t([&] { s.set_raw("a.c", 1); s.set_raw("d.e", 2); });
  auto n = s.subtree("a");
  mc::check(bool(n), "lost-key", "the subtree of an existing branch was not found");
  t.join();
  mc::check(n->get_raw("b").as<int>() == 5 && n->get_raw("c").as<int>() == 1, "wrong-value", "subtree content");
}
static void strings() {
  Store s;
  std::thread t([&] { s.set_raw("a.b", std::string("one two three four five")); });
  s.set_raw("a.c", std::string("six seven eight nine ten"));
  t.join();
  mc::check(s.get_raw("a.b").as<std::string>() == "one two three four five" && s.get_raw("a.c").as<std::string>() == "six seven eight nine ten", "wrong-value", "string values");
}
static void three() {
  Store s;
  s.set_raw("a.b", 7);
  std::thread t([&] { s.set_raw("a.c", 1); });
  std::thread u([&] { s.set_raw("a.d", 2); s.set_raw("a.c", 3); });
  is(s, "a.b", 7);
  s.set_raw("e", 4);
  t.join(); u.join();
  is(s, "a.b", 7); is(s, "a.d", 2); is(s, "e", 4);
  mc::outcome(to_string(any_of(s, "a.c", 1, 3)));
}
static void readers() {
  Store s;
  s.set_raw("a.b", 7);
  auto rd = [&] { is(s, "a.b", 7); mc::check(!s.has("", "zz"), "invented", "has() true for a missing key"); mc::check(!s.get_raw("zz").has_value(), "invented", "value for a missing key"); };
  std::thread t(rd), u([&] { s.set_raw("q", 1); });
  rd();
  t.join(); u.join();
}
int main(int argc, char **argv) {
  std::vector<mc::Test> t{{"siblings", siblings, 3, 6}, {"deep-siblings", deep_siblings, 3, 6}, {"leaf-and-branch", leaf_and_branch, 3, 6}, {"same-key", same_key, 3, 6}, {"overwrite", overwrite, 3, 6},
                          {"set-beside-get", set_vs_get, 3, 6}, {"set-beside-has", set_vs_has, 3, 6}, {"set-beside-get-missing", set_vs_get_missing, 3, 6}, {"set-beside-prefixed", set_vs_prefixed, 3, 6},
                          {"set-beside-subtree", set_vs_subtree, 3, 6}, {"string-values", strings, 3, 6}, {"three-threads", three, 2, 4}, {"two-readers-one-writer", readers, 2, 4}};
  return mc::run(argc, argv, "S03", t, "all keys set are present with a value that was set; reads of other keys are undisturbed; no race, no deadlock");
}
