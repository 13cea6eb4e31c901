// D07 the factory: every ordered selection of product classes x every way of creating x every name, histories of creations
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_utils.hh>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <typeinfo>
#include <typeindex>
using namespace std;

static map<const void *, int> g_live; // address -> product number
static long g_made, g_gone;
struct Base {
  int kind{-1};
  string args;
  Base(int k, string a) : kind(k), args(move(a)) { g_made++; g_live[this] = k; }
  virtual ~Base() { g_gone++; g_live.erase(this); }
  Base(Base const &) = delete;
};
template<class T> string show(T const &v) { if constexpr (is_same_v<T, string>) return v; else return to_string(v); }
#define PRODUCT(NAME, K)                                                                                        \
  struct NAME : Base {                                                                                          \
    NAME() : Base(K, "-") {}                                                                                    \
    explicit NAME(int i) : Base(K, "i" + to_string(i)) {}                                                       \
    NAME(string s, int i) : Base(K, "s" + s + ",i" + to_string(i)) {}                                            \
    NAME(string const &a, string const &b, int &n) : Base(K, "s" + a + ",s" + b + ",r" + to_string(++n)) {}      \
  }
PRODUCT(Rect, 0);
PRODUCT(Rectangle, 1); // a name that another one starts with
namespace geo { PRODUCT(Rect, 2); namespace deep { PRODUCT(Rect, 3); } PRODUCT(ct, 4); }
struct Outer { PRODUCT(Inner, 5); };
PRODUCT(ct, 6);
PRODUCT(R, 7);
namespace geo { PRODUCT(RectWithRoundedCornersAndShadow, 8); PRODUCT(RectWithRoundedCornersAndShadowThatIsFilledWithSeveralColors, 9); }
static const char *CLASS[] = {"Rect", "Rectangle", "geo::Rect", "geo::deep::Rect", "geo::ct", "Outer::Inner", "ct", "R",
                              "geo::RectWithRoundedCornersAndShadow", "geo::RectWithRoundedCornersAndShadowThatIsFilledWithSeveralColors"};
using All = tuple<Rect, Rectangle, geo::Rect, geo::deep::Rect, geo::ct, Outer::Inner, ct, R, geo::RectWithRoundedCornersAndShadow,
                  geo::RectWithRoundedCornersAndShadowThatIsFilledWithSeveralColors>;
static constexpr int NP = tuple_size_v<All>;

using U = unique_ptr<Base>;
using UF = cmdr::util::id_type;
// one factory as a table of functions: [form 0..3][argument shape 0..3]
struct Maker {
  vector<int> products; // in order
  function<shared_ptr<Base>(int form, int shape, string const &name, string &got)> make;
};
template<class F, class... A> shared_ptr<Base> by_form(int form, string const &name, A &&...a) {
  switch (form) {
  case 0: { U u = F::create(name, forward<A>(a)...); return shared_ptr<Base>(move(u)); }
  case 1: { U u = F::make_unique(name, forward<A>(a)...); return shared_ptr<Base>(move(u)); }
  case 2: return F::make_shared(name, forward<A>(a)...);
  default: return shared_ptr<Base>(F::create_naked_ptr(name, forward<A>(a)...));
  }
}
template<int... I> Maker maker() {
  using F = cmdr::util::factory::factory<Base, tuple_element_t<I, All>...>;
  return {{I...}, [](int form, int shape, string const &name, string &want) -> shared_ptr<Base> {
            switch (shape) {
            case 0: want = "-"; return by_form<F>(form, name);
            case 1: want = "i42"; return by_form<F>(form, name, 42);
            case 2: { want = "stext,i7"; string s = "text"; int i = 7; auto r = by_form<F>(form, name, s, i); if (s != "text" || i != 7) want = "the caller's arguments were changed"; return r; }
            default: { want = "sa,sb,r4"; int n = 3; string const c = "a"; auto r = by_form<F>(form, name, c, string("b"), n); if (r && n != 4) want = "the reference argument was not passed as a reference"; if (!r && n != 3) want = "argument changed"; return r; }
            }
          }};
}
template<int A, int... B> void pairs(vector<Maker> &v, integer_sequence<int, B...>) {
  v.push_back(maker<A>());
  auto two = [&](auto b) { if constexpr (decltype(b)::value != A) v.push_back(maker<A, decltype(b)::value>()); };
  (two(integral_constant<int, B>{}), ...);
}
template<int... A> vector<Maker> all_makers(integer_sequence<int, A...> s) {
  vector<Maker> v;
  (pairs<A>(v, s), ...);
  v.push_back(maker<0, 1, 2>()); v.push_back(maker<2, 1, 0>()); v.push_back(maker<3, 2, 0, 6>()); v.push_back(maker<7, 6, 4, 0>());
  v.push_back(maker<A...>()); v.push_back(maker<9, 8, 7, 6, 5, 4, 3, 2, 1, 0>()); v.push_back(maker<4, 0, 8, 7, 2, 6, 9, 1, 5, 3>()); v.push_back(maker<0, 2, 8, 9>());
  return v;
}
static vector<Maker> const &makers() { static vector<Maker> v = all_makers(make_integer_sequence<int, NP>{}); return v; }
template<int... I> array<string, NP> ids(integer_sequence<int, I...>) { return {string(cmdr::util::id_name<tuple_element_t<I, All>>())...}; }

static vector<string> names() { // the classes' own names first, then names that must not match
  auto id = ids(make_integer_sequence<int, NP>{});
  vector<string> r(id.begin(), id.end());
  set<string> have(r.begin(), r.end());
  auto add = [&](string s) { if (have.insert(s).second) r.push_back(s); };
  for (auto &s: id) {
    for (size_t k = 0; k <= s.size(); k++) { add(s.substr(0, k)); add(s.substr(k)); }
    add(s + " "); add(" " + s); add(s + s); add(s + "x"); add("::" + s); add(s + string(1, 0));
    string l = s; for (auto &c: l) c = char(tolower(c)); add(l);
  }
  add("Base"); add("unknown");
  return r;
}
static vector<string> const &NAMES() { static vector<string> v = names(); return v; }

static void one(seq::Ctx &x, Maker const &m, int form, int shape, string const &name, vector<shared_ptr<Base>> &kept) {
  int want = -1;
  for (int p: m.products) if (NAMES()[size_t(p)] == name) want = p;
  long const made = g_made, gone = g_gone;
  string args;
  auto r = m.make(form, shape, name, args);
  x.step();
  static const char *FORM[] = {"create", "make_unique", "make_shared", "create_naked_ptr"};
  string d = string(FORM[form]) + "('" + name + "') with arguments of shape " + to_string(shape);
  if (want < 0) {
    x.eq("unknown", d, string("nothing"), string(r ? "an object of " + string(CLASS[r->kind]) : "nothing"));
    x.eq("unknown.made", d + ": constructed objects", 0L, g_made - made);
    return;
  }
  x.eq("class", d, string(CLASS[want]), string(r ? CLASS[r->kind] : "nothing"));
  if (!r) return;
  x.interesting();
  x.outcome(string(CLASS[want]) + args);
  x.eq("args", d + ": arguments", args, r->args);
  x.eq("made", d + ": constructed objects", 1L, g_made - made);
  x.eq("gone", d + ": destroyed objects", 0L, g_gone - gone);
  for (auto &k: kept) x.check("new", d + " yields a new object", k.get() != r.get());
  kept.push_back(r);
}
int main(int argc, char **argv) {
  bool th = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto list = [](Maker const &m) { string s; for (int p: m.products) s += (s.empty() ? "" : ",") + string(CLASS[p]); return s; };
  sp.push_back({"names", 1, [](uint64_t, seq::Ctx &x) {
    auto id = ids(make_integer_sequence<int, NP>{});
    for (int i = 0; i < NP; i++) {
      x.step();
      x.eq("name", string("id of ") + CLASS[i], string(CLASS[i]), id[size_t(i)]);
      for (int j = 0; j < i; j++) x.check("distinct", string("ids of ") + CLASS[i] + " and " + CLASS[j] + " differ", id[size_t(i)] != id[size_t(j)]);
    }
  }, [](uint64_t) { return string("names of the classes"); }});
  sp.push_back({"create", makers().size() * 16, [](uint64_t i, seq::Ctx &x) {
    auto &m = makers()[i / 16];
    x.state(i);
    for (auto &n: NAMES()) { vector<shared_ptr<Base>> kept; one(x, m, int(i % 4), int(i / 4 % 4), n, kept); kept.clear(); x.eq("leak", "live objects", size_t(0), g_live.size()); }
  }, [list](uint64_t i) { return "factory<" + list(makers()[i / 16]) + ">"; }});
  // histories of creations on one factory, all objects kept
  unsigned depth = th ? 4 : 3;
  uint64_t const ops = 4 * (NP + 1);
  uint64_t total = 1; for (unsigned k = 0; k < depth; k++) total *= ops;
  static uint64_t s_ops; static unsigned s_depth; s_ops = ops; s_depth = depth;
  for (size_t f: {makers().size() - 1, makers().size() - 4})
    sp.push_back({"history" + to_string(f), total, [f](uint64_t i, seq::Ctx &x) {
      x.state(i % 65536);
      vector<shared_ptr<Base>> kept;
      for (unsigned k = 0; k < s_depth; k++, i /= s_ops) {
        auto o = i % s_ops;
        one(x, makers()[f], int(o % 4), int((o + k) % 4), o / 4 < NP ? NAMES()[o / 4] : string("unknown"), kept);
      }
      for (auto &k: kept) x.check("alive", "earlier objects stay alive", g_live.count(k.get()) == 1);
      size_t n = kept.size();
      x.eq("live", "live objects", n, g_live.size());
      kept.clear();
      x.eq("leak", "live objects at the end", size_t(0), g_live.size());
    }, [](uint64_t i) { string s; for (unsigned k = 0; k < s_depth; k++, i /= s_ops) s += to_string(i % s_ops) + " "; return s; }});
  return seq::run(argc, argv, "D07", sp, "every factory over one product, every ordered pair of products and seven larger lists of eight classes x four ways to create x four argument shapes x every name, part of a name and near miss; histories of creations with all objects kept");
}
