// D14 function adapters: the target is called once per call, with exactly the arguments bound and given, in order
// KIND: fast
#include "seq.hh"
#include <functional>
#include <cmdr11/cmdr_common.hh>
#include <cmdr11/cmdr_utils.hh>
#include <cmdr11/cmdr_pipeable.hh>
#include <map>
#include <memory>
using std::string; using std::to_string; using std::vector;
namespace cu = cmdr::util;
namespace ct = cmdr::traits;
using ints = vector<int>;
static vector<string> *LOG;
static int LIVE;
// a value that notices when it is moved from, and whose copies are counted
struct Val {
  int v;
  Val(int x) : v(x) { LIVE++; }
  Val(Val const &o) : v(o.v) { LIVE++; }
  Val(Val &&o) noexcept : v(o.v) { o.v = -1; LIVE++; }
  Val &operator=(Val const &o) = default;
  ~Val() { LIVE--; }
};
static int rec(string const &who, ints const &a) { string s = who + "("; int r = 0; for (int x : a) { s += to_string(x) + ","; r = r * 10 + x; } LOG->push_back(s + ")"); return r; }
static int f0() { return rec("f", {}); }
static int f1(Val a) { return rec("f", {a.v}); }
static int f2(Val a, Val b) { return rec("f", {a.v, b.v}); }
static int f3(Val a, Val b, Val c) { return rec("f", {a.v, b.v, c.v}); }
static int g2(Val const &a, Val const &b) { return rec("f", {a.v, b.v}); }
static int g3(Val const &a, Val b, Val const &c) { return rec("f", {a.v, b.v, c.v}); }
struct Obj {
  string id;
  int calls = 0;
  int m0() { return rec(id + to_string(++calls), {}); }
  int m1(Val a) { return rec(id + to_string(++calls), {a.v}); }
  int m2(Val a, Val const &b) { return rec(id + to_string(++calls), {a.v, b.v}); }
  int m3(Val a, Val b, Val c) { return rec(id + to_string(++calls), {a.v, b.v, c.v}); }
  int c0() const { return rec(id, {}); }
  int c2(Val a, Val b) const { return rec(id, {a.v, b.v}); }
};
using Call = std::function<int(ints const &)>; // a call of the adapter with the given rest of the arguments
struct Kind { string name; int bound, rest; string who; std::function<Call(ints const &, Obj *)> make; bool result = true; };
static auto L2 = [](Val a, Val b) { return f2(a, b); };
struct Functor { int tag = 0; int operator()(Val a, Val b, Val c) const { return f3(a, b, c); } };
static vector<Kind> kinds() {
  using namespace std::placeholders;
  vector<Kind> k;
  auto V = [](int x) { return Val(x); };
  (void) V;
#define R [=](ints const &r) mutable
#define ADD(name, b, n, who, ...) k.push_back({name, b, n, who, [](ints const &b_, Obj *o) -> Call { (void) b_; (void) o; __VA_ARGS__ }})
  // member functions
  ADD("bind_this m0", 0, 0, "o", auto a = cu::bind_this(o, &Obj::m0); return R { (void) r; return a(); };);
  ADD("bind_this m1", 0, 1, "o", auto a = cu::bind_this(o, &Obj::m1); return R { Val x(r[0]); int q = a(x); return x.v == r[0] ? q : -9; };);
  ADD("bind_this m2", 0, 2, "o", auto a = cu::bind_this(o, &Obj::m2); return R { Val x(r[0]), y(r[1]); int q = a(x, y); return x.v == r[0] && y.v == r[1] ? q : -9; };);
  ADD("bind_this m3", 0, 3, "o", auto a = cu::bind_this(o, &Obj::m3); return R { return a(Val(r[0]), Val(r[1]), r[2]); };);
  ADD("bind_this c0", 0, 0, "c", auto a = cu::bind_this((Obj const *) o, &Obj::c0); return R { (void) r; return a(); };);
  ADD("bind_this c2", 0, 2, "c", auto a = cu::bind_this((Obj const *) o, &Obj::c2); return R { return a(r[0], r[1]); };);
  // easy_bind
  ADD("easy_bind 1/0", 0, 1, "f", std::function<int(Val)> fn = f1; auto a = cu::easy_bind(fn); return R { return a(Val(r[0])); };);
  ADD("easy_bind 1/1", 1, 0, "f", std::function<int(Val)> fn = f1; auto a = cu::easy_bind(fn, Val(b_[0])); return R { (void) r; return a(); };);
  ADD("easy_bind 2/0", 0, 2, "f", std::function<int(Val, Val)> fn = f2; auto a = cu::easy_bind(fn); return R { Val x(r[0]); int q = a(x, Val(r[1])); return x.v == r[0] ? q : -9; };);
  ADD("easy_bind 2/1", 1, 1, "f", std::function<int(Val, Val)> fn = f2; Val x(b_[0]); auto a = cu::easy_bind(fn, x); return R { return a(Val(r[0])); };);
  ADD("easy_bind 2/2", 2, 0, "f", std::function<int(Val, Val)> fn = f2; auto a = cu::easy_bind(fn, Val(b_[0]), Val(b_[1])); return R { (void) r; return a(); };);
  ADD("easy_bind 3/0", 0, 3, "f", std::function<int(Val, Val, Val)> fn = f3; auto a = cu::easy_bind(fn); return R { return a(r[0], r[1], r[2]); };);
  ADD("easy_bind 3/1", 1, 2, "f", std::function<int(Val, Val, Val)> fn = f3; auto a = cu::easy_bind(fn, b_[0]); return R { return a(r[0], r[1]); };);
  ADD("easy_bind 3/2", 2, 1, "f", std::function<int(Val, Val, Val)> fn = f3; auto a = cu::easy_bind(fn, b_[0], b_[1]); return R { return a(r[0]); };);
  ADD("easy_bind 3/3", 3, 0, "f", std::function<int(Val const &, Val, Val const &)> fn = g3; auto a = cu::easy_bind(fn, b_[0], b_[1], b_[2]); return R { (void) r; return a(); };);
  // partial
  ADD("partial 1/0", 0, 1, "f", auto a = cu::cool::partial(f1); return R { Val x(r[0]); int q = a(x); return x.v == r[0] ? q : -9; };);
  ADD("partial 1/1", 1, 0, "f", auto a = cu::cool::partial(f1, Val(b_[0])); return R { (void) r; return a(); };);
  ADD("partial 2/1", 1, 1, "f", auto a = cu::cool::partial(f2, Val(b_[0])); return R { Val x(r[0]); int q = a(x); return x.v == r[0] ? q : -9; };);
  ADD("partial 2/2", 2, 0, "f", auto a = cu::cool::partial(g2, Val(b_[0]), Val(b_[1])); return R { (void) r; return a(); };);
  ADD("partial lambda 2/1", 1, 1, "f", auto a = cu::cool::partial(L2, Val(b_[0])); return R { return a(Val(r[0])); };);
  ADD("partial 3/0", 0, 3, "f", auto a = cu::cool::partial(Functor{}); return R { return a(Val(r[0]), Val(r[1]), Val(r[2])); };);
  ADD("partial 3/1", 1, 2, "f", auto a = cu::cool::partial(f3, Val(b_[0])); return R { return a(Val(r[0]), Val(r[1])); };);
  ADD("partial 3/2", 2, 1, "f", auto a = cu::cool::partial(Functor{}, Val(b_[0]), Val(b_[1])); return R { return a(Val(r[0])); };);
  ADD("partial 3/3", 3, 0, "f", auto a = cu::cool::partial(g3, Val(b_[0]), Val(b_[1]), Val(b_[2])); return R { (void) r; return a(); };);
  // curry, split in every way; a stage can be used several times
  ADD("curry 1", 0, 1, "f", auto a = cu::cool::curry(f1); return R { return a(Val(r[0])); };);
  ADD("curry 2", 0, 2, "f", auto a = cu::cool::curry(f2); return R { return a(Val(r[0]), Val(r[1])); };);
  ADD("curry 1+1", 1, 1, "f", auto a = cu::cool::curry(f2); auto b = a(Val(b_[0])); return R { return b(Val(r[0])); };);
  ADD("curry 3", 0, 3, "f", auto a = cu::cool::curry(f3); return R { return a(Val(r[0]), Val(r[1]), Val(r[2])); };);
  ADD("curry 1+2", 1, 2, "f", auto a = cu::cool::curry(f3); auto b = a(Val(b_[0])); return R { return b(Val(r[0]), Val(r[1])); };);
  ADD("curry 2+1", 2, 1, "f", auto a = cu::cool::curry(Functor{}); auto b = a(Val(b_[0]), Val(b_[1])); return R { return b(Val(r[0])); };);
  ADD("curry 1+1+1", 1, 2, "f", auto a = cu::cool::curry(g3); auto b = a(Val(b_[0])); return R { auto c = b(Val(r[0])); return c(Val(r[1])); };);
  // bind and bind_tie
  ADD("bind 2", 0, 2, "f", auto a = cu::bind(f2, _1, _2); return R { return a(r[0], r[1]); };);
  ADD("bind 3/1", 1, 2, "f", auto a = cu::bind(f3, Val(b_[0]), _1, _2); return R { Val x(r[0]); int q = a(x, r[1]); return x.v == r[0] ? q : -9; };);
  ADD("bind lambda", 1, 1, "f", auto a = cu::bind(L2, Val(b_[0]), _1); return R { return a(r[0]); };);
  ADD("bind member", 1, 1, "o", auto a = cu::bind(&Obj::m2, o, Val(b_[0]), _1); return R { return a(r[0]); };);
  ADD("cool::bind 3/2", 2, 1, "f", Val x(b_[0]); auto a = cu::cool::bind(g3, x, Val(b_[1]), _1); return R { return a(r[0]); };);
  ADD("cool::bind member", 0, 1, "o", auto a = cu::cool::bind(&Obj::m1, o, _1); return R { return a(r[0]); };);
  ADD("bind_tie 1", 0, 1, "f", auto a = cu::cool::bind_tie<1>(f1, _1, _2, _3); return R { return a(r[0]); };);
  ADD("bind_tie 2", 0, 2, "f", auto a = cu::cool::bind_tie<2>(f2, _1, _2, _3); return R { return a(r[0], r[1]); };);
  ADD("bind_tie 3/1", 1, 2, "f", auto a = cu::cool::bind_tie<3>(f3, Val(b_[0]), _1, _2, _3); return R { return a(r[0], r[1]); };);
  ADD("bind_tie 3/2", 2, 1, "f", auto a = cu::cool::bind_tie<3>(Functor{}, Val(b_[0]), Val(b_[1]), _1, _2, _3); return R { return a(r[0]); };);
  ADD("bind_tie member", 0, 2, "o", auto a = cu::cool::bind_tie<2>(&Obj::m2, o, _1, _2, _3); return R { return a(r[0], r[1]); };);
  ADD("bind_tie member/1", 1, 2, "o", auto a = cu::cool::bind_tie<3>(&Obj::m3, o, Val(b_[0]), _1, _2, _3); return R { return a(r[0], r[1]); };);
  // lambdas as functions
  ADD("lambda 2", 0, 2, "f", auto a = ct::lambda([](Val x, Val y) { f2(x, y); }); return R { Val x(r[0]); a(x, Val(r[1])); return x.v == r[0] ? r[0] * 10 + r[1] : -9; };);
  ADD("lambda 0", 0, 0, "f", auto a = ct::lambda([]() { f0(); }); return R { a(); (void) r; return 0; };);
  ADD("lambda captured", 1, 1, "f", Val c(b_[0]); auto a = ct::lambda([c](Val y) { f2(c, y); }); return R { a(Val(r[0])); return c.v * 10 + r[0]; };);
  ADD("to_function", 1, 1, "f", Val c(b_[0]); auto l = [c](Val y) { return f2(c, y); }; auto a = ct::to_function(l); return R { return a(Val(r[0])); };);
  ADD("lambda_to_function", 1, 2, "f", Val c(b_[0]); auto a = ct::lambda_to_function([c](Val x, Val const &y) { return f3(c, x, y); }); return R { return a(r[0], r[1]); };);
  ADD("l2f", 0, 3, "f", auto a = ct::l2f([](Val x, Val y, Val z) { return f3(x, y, z); }); return R { return a(r[0], r[1], r[2]); };);
  // pipes: the piped value is the first argument
  ADD("piped 1", 0, 1, "f", auto p = cmdr::pipeable::piped(f1); return R { using cmdr::pipeable::operator|; Val x(r[0]); int q = x | p(); return x.v == r[0] ? q : -9; };);
  k.push_back({"piped 2", 1, 1, "swap", [](ints const &b_, Obj *) -> Call { auto p = cmdr::pipeable::piped(f2); auto s = p(Val(b_[0])); return R { using cmdr::pipeable::operator|; return Val(r[0]) | s; }; }});
  k.push_back({"piped 3", 2, 1, "swap", [](ints const &b_, Obj *) -> Call { auto p = cmdr::pipeable::piped(Functor{}); Val x(b_[0]); auto s = p(x, Val(b_[1])); return R { using cmdr::pipeable::operator|; return Val(r[0]) | s; }; }});
#undef ADD
#undef R
  return k;
}
// histories of two adapters: calls with all arguments, copies, the original destroyed
static void history(seq::Ctx &x, vector<Kind> const &ks, Kind const &k, uint64_t i, unsigned len, string const &where) {
  seq::Digits d(i);
  vector<string> log, want;
  LOG = &log;
  int before = LIVE;
  {
    Obj o[2]{{"oA"}, {"oB"}};
    int calls[2]{};
    ints bound[2];
    Call a[2];
    string text = where + ":";
    for (int n = 0; n < 2; n++) {
      for (int j = 0; j < k.bound; j++) bound[n].push_back(1 + (int) d.take(2));
      a[n] = k.make(bound[n], &o[n]);
    }
    for (unsigned s = 0; s < len; s++) {
      int n = (int) d.take(2);
      ints r;
      if (d.take(3) == 2) { auto copy = a[n]; a[n] = nullptr; a[n] = copy; text += " copied"; } // the copy does what the original did
      for (int j = 0; j < k.rest; j++) r.push_back(5 + (int) d.take(2));
      ints all = bound[n];
      if (k.who == "swap") { all = r; all.insert(all.end(), bound[n].begin(), bound[n].end()); } else all.insert(all.end(), r.begin(), r.end());
      string w = "f";
      if (k.who == "o") w = o[n].id + to_string(++calls[n]);
      if (k.who == "c") w = o[n].id;
      string t = w + "(";
      int res = 0;
      for (int v : all) { t += to_string(v) + ","; res = res * 10 + v; }
      t += ")";
      text += " " + t;
      size_t had = log.size();
      int got = a[n](r);
      x.step();
      if (log.size() != had + 1) { x.fail("calls", text + ": the target was called " + to_string(log.size() - had) + " times"); return; }
      x.eq("arguments", text, t, log.back());
      x.eq("result", text, to_string(res), to_string(got));
    }
    for (int n = 0; n < 2; n++) x.check("object", text + ": the object was called " + to_string(o[n].calls) + " times", k.who != "o" || o[n].calls == calls[n]);
    string h;
    for (auto &l : log) h += l;
    x.state(seq::fnv(where + h));
    x.outcome(h);
  }
  x.interesting();
  x.check("lifetime", where + " #" + to_string(i) + ": " + to_string(LIVE - before) + " arguments live on or were destroyed twice", LIVE == before);
}
// references and values that can only be moved
struct Only { std::unique_ptr<int> p; };
static void references(seq::Ctx &x, uint64_t i) {
  vector<string> log;
  LOG = &log;
  struct O { int seen = 0; void add(int &t, int v) { t += v; } int take(std::unique_ptr<int> p) { seen++; return *p; } int *where(int &r) { return &r; } int *cwhere(int const &r) const { return const_cast<int *>(&r); } };
  O o;
  int n = 10 + (int) i, m = n;
  auto addf = [](int &t, int v) { t += v; };
  auto takef = [](int v, std::unique_ptr<int> p) { return v * 100 + *p; };
  auto same = [&](string const &what, bool ok) { x.step(); x.check("reference", what + " with " + to_string(i), ok); };
  cu::bind_this(&o, &O::add)(n, 3); m += 3;
  same("bind_this changes the argument", n == m);
  same("bind_this passes the very argument", cu::bind_this(&o, &O::where)(n) == &n && cu::bind_this((O const *) &o, &O::cwhere)(n) == &n);
  cu::cool::partial(addf)(n, 4); m += 4;
  same("partial changes the argument", n == m);
  same("partial moves what can only be moved", cu::cool::partial(takef, (int) i)(std::make_unique<int>(7)) == (int) i * 100 + 7);
  same("bind_this moves what can only be moved", cu::bind_this(&o, &O::take)(std::make_unique<int>((int) i)) == (int) i && o.seen == 1);
  std::function<void(int &, int)> fn = addf;
  cu::easy_bind(fn)(n, 5); m += 5;
  same("easy_bind changes the argument", n == m);
  cu::easy_bind(fn, std::ref(n))(6); m += 6;
  same("easy_bind changes a bound reference", n == m);
  cu::cool::partial(addf, std::ref(n))(2); m += 2;
  same("partial changes a bound reference", n == m);
  int keep = n;
  auto b = cu::easy_bind(fn, keep);
  b(1); b(1);
  same("easy_bind keeps its own copy", keep == n);
  x.interesting();
  x.state(i);
}
// visiting a std::any
template<class... Ts>
static void visiting(seq::Ctx &x, string const &types) {
  struct Odd { int v; };
  std::any held[] = {std::any(), std::any(5), std::any(2.5), std::any(string("s")), std::any(Odd{1}), std::any('c'), std::any(5u)};
  char const *what[] = {"nothing", "int", "double", "string", "another type", "char", "unsigned"};
  for (int h = 0; h < 7; h++) {
    string where = "visit_any_as<" + types + "> of " + what[h];
    int calls = 0, thrown = 0;
    string seen;
    std::any copy = held[h];
    auto visitor = [&](auto const &v) { calls++; using T = std::decay_t<decltype(v)>; std::ostringstream o; o << v; seen = string(typeid(T) == typeid(int) ? "int" : typeid(T) == typeid(double) ? "double" : typeid(T) == typeid(char) ? "char" : "string") + " " + o.str(); };
    try { cu::visit_any_as<Ts...>(copy, visitor); } catch (cmdr::exception::cmdr_exception const &) { thrown = 1; }
    bool in = ((copy.type() == typeid(Ts)) || ...);
    string want = !in ? "" : h == 1 ? "int 5" : h == 2 ? "double 2.5" : h == 3 ? "string s" : "char c";
    x.step();
    x.interesting();
    x.state(seq::fnv(where));
    x.check("visit", where + ": the visitor was called " + to_string(calls) + " times, " + (thrown ? "and an exception was thrown" : "no exception"), calls == (in ? 1 : 0) && thrown == (in ? 0 : 1));
    x.eq("visit", where, want, seen);
    x.check("visit", where + ": the value was changed", copy.type() == held[h].type());
  }
}
// ownership: every object is destroyed exactly once, and moved objects stay the same object
static int DTORS;
struct Owned { int v; explicit Owned(int x) : v(x) { LIVE++; } Owned(Owned &&o) noexcept : v(o.v) { LIVE++; } ~Owned() { LIVE--; DTORS++; v = -1; } };
static void ownership(seq::Ctx &x, uint64_t i) {
  seq::Digits d(i);
  int from = (int) d.take(7), later = (int) d.take(3), val = 1 + (int) d.take(3);
  string where = "ownership #" + to_string(i);
  int before = LIVE;
  {
    std::shared_ptr<Owned> s, kept;
    std::unique_ptr<Owned> u;
    auto *raw = from != 5 ? new Owned(val) : nullptr;
    switch (from) {
      case 0: u = std::to_unique(raw); break;
      case 1: { std::unique_ptr<Owned> q(raw); u = std::to_unique(std::move(q)); x.check("ownership", where + ": the source still owns it", !q); break; }
      case 2: s = std::to_shared(raw); break;
      case 3: { std::shared_ptr<Owned> q(raw); s = std::to_shared(q); x.check("ownership", where + ": not shared", q.use_count() == 2); break; }
      case 4: { std::unique_ptr<Owned> q(raw); s = std::to_shared(std::move(q)); x.check("ownership", where + ": the source still owns it", !q); break; }
      case 5: u = std::to_unique((Owned *) nullptr); break;
    }
    if (from == 6) { // a shared object is not given away: its content moves to a new one
      std::shared_ptr<Owned> q(raw), other;
      if (later == 2) other = q;
      u = std::to_unique(std::move(q));
      x.step();
      x.check("ownership", where + ": still shared", !q && (!other || other.use_count() == 1));
      x.check("ownership", where + ": the content is lost", u && u->v == val && u.get() != raw);
      x.check("lifetime", where + ": " + to_string(LIVE - before) + " objects", LIVE - before == (other ? 2 : 1));
      raw = u.get();
      if (later == 2) later = 0;
    }
    x.step();
    x.check("ownership", where + ": not the same object", (u ? u.get() : s.get()) == raw);
    x.check("ownership", where + ": the object was changed or destroyed", !raw || raw->v == val);
    if (later == 1 && u) { s = std::to_shared(std::move(u)); x.check("ownership", where + ": unique to shared", !u && s.get() == raw && s.use_count() == 1); }
    if (later == 2 && s) { kept = std::to_shared(s); s.reset(); x.check("ownership", where + ": shared to shared", kept.get() == raw && kept.use_count() == 1); }
    x.check("lifetime", where + ": " + to_string(LIVE - before) + " objects", LIVE - before == (raw ? 1 : 0));
  }
  x.interesting();
  x.state(i);
  x.check("lifetime", where + ": " + to_string(LIVE - before) + " objects remain", LIVE == before);
}
struct Eq : cu::equal_comparable<Eq> { int a, b; Eq(int x, int y) : a(x), b(y) {} bool equal_to(Eq const &o) const { return a == o.a && b == o.b; } };
struct SB : cu::safe_bool<SB> { bool v; explicit SB(bool x) : v(x) {} bool boolean_test() const { return v; } };
struct SV : cu::safe_bool<> { bool v; explicit SV(bool x) : v(x) {} virtual ~SV() {} protected: bool boolean_test() const override { return v; } };
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto ks = std::make_shared<vector<Kind>>(kinds());
  unsigned len = T ? 3 : 2;
  for (size_t q = 0; q < ks->size(); q++) {
    auto &k = (*ks)[q];
    uint64_t n = 1;
    for (int j = 0; j < 2 * k.bound; j++) n *= 2;
    for (unsigned s = 0; s < len + (k.rest < 2 ? 1 : 0); s++) { n *= 6; for (int j = 0; j < k.rest; j++) n *= 2; }
    unsigned ln = len + (k.rest < 2 ? 1 : 0);
    sp.push_back({k.name, n, [=](uint64_t i, seq::Ctx &x) { history(x, *ks, (*ks)[q], i, ln, (*ks)[q].name); }, [=](uint64_t i) { return (*ks)[q].name + " #" + to_string(i); }});
  }
  sp.push_back({"references", 8, [](uint64_t i, seq::Ctx &x) { references(x, i); }, [](uint64_t i) { return "references #" + to_string(i); }});
  sp.push_back({"visit_any_as", 1, [](uint64_t, seq::Ctx &x) {
                  visiting<int>(x, "int"); visiting<double>(x, "double"); visiting<string>(x, "string");
                  visiting<int, double>(x, "int, double"); visiting<double, int>(x, "double, int"); visiting<int, string>(x, "int, string"); visiting<string, int>(x, "string, int"); visiting<double, string>(x, "double, string"); visiting<string, double>(x, "string, double");
                  visiting<int, double, string>(x, "int, double, string"); visiting<int, string, double>(x, "int, string, double"); visiting<double, int, string>(x, "double, int, string"); visiting<double, string, int>(x, "double, string, int"); visiting<string, int, double>(x, "string, int, double"); visiting<string, double, int>(x, "string, double, int");
                  visiting<string, char, double, int>(x, "string, char, double, int"); visiting<char, int>(x, "char, int");
                }, [](uint64_t) { return string("visit_any_as"); }});
  sp.push_back({"ownership", 7 * 3 * 3, [](uint64_t i, seq::Ctx &x) { ownership(x, i); }, [](uint64_t i) { return "ownership #" + to_string(i); }});
  sp.push_back({"is_in", 4 * 4 * 4 * 4, [](uint64_t i, seq::Ctx &x) {
                  seq::Digits d(i);
                  int a = (int) d.take(4), b = (int) d.take(4), c = (int) d.take(4), e = (int) d.take(4);
                  string where = "is_in #" + to_string(i);
                  x.step(); x.interesting(); x.state(i);
                  x.check("is_in", where, cu::is_in(a, b, c, e) == (a == b || a == c || a == e));
                  x.check("is_in", where, cu::is_in(a, b) == (a == b));
                  x.check("is_in", where, cu::is_in(to_string(a), to_string(b), to_string(c)) == (a == b || a == c));
                  x.check("is_in", where, !cu::is_in(a));
                  x.check("equal_comparable", where, (Eq(a, b) == Eq(c, e)) == (a == c && b == e) && (Eq(a, b) != Eq(c, e)) == !(a == c && b == e));
                  SB p(a & 1); SV q(b & 1);
                  x.check("safe_bool", where, (p ? true : false) == p.v && (q ? true : false) == q.v && !p == !p.v);
                  vector<vector<string>> w{{}, {"a"}, {"b"}, {"a", "b"}};
                  w.push_back({"a", "b"}); w.push_back({"a", "c"}); w.push_back({"ab"});
                  for (auto &v1 : w) for (auto &v2 : w) {
                    vector<char const *> p1, p2;
                    vector<string> copy = v2; // equal texts at other places
                    for (auto &s : v1) p1.push_back(s.c_str());
                    for (auto &s : copy) p2.push_back(s.c_str());
                    x.check("compare_vector_values", where, cu::compare_vector_values(p1, p2) == (v1 == v2));
                  }
                }, [](uint64_t i) { return "is_in #" + to_string(i); }});
  return seq::run(argc, argv, "D14", sp, "for every adapter and every split of the arguments: all histories of two instances with all argument values, copies in between; references and move-only arguments; visit_any_as for all type lists; ownership conversions");
}
