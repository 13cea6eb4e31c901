// V02 typed access to values: every (stored type, read type) pair; every short sequence of sets, copies, moves, clones, reads
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_var_t.hh>
using std::string; using std::to_string; using std::vector;
using cmdr::vars::variable;
struct Custom { int a; bool operator==(Custom const &o) const { return a == o.a; } };
template<class T> static T sample(int n);
#define SAMPLE(T, ...) template<> T sample<T>(int n) { (void) n; return __VA_ARGS__; }
SAMPLE(bool, n % 2 == 0)
SAMPLE(char, (char) ('a' + n))
SAMPLE(int8_t, (int8_t) (n - 3)) SAMPLE(uint8_t, (uint8_t) (200 + n)) SAMPLE(int16_t, (int16_t) (-300 - n)) SAMPLE(uint16_t, (uint16_t) (60000 + n))
SAMPLE(int, 100 + n) SAMPLE(unsigned, 4000000000u + (unsigned) n) SAMPLE(long, -5000000000L - n) SAMPLE(unsigned long, 1ul << (40 + n))
SAMPLE(long long, -(1ll << 50) - n) SAMPLE(unsigned long long, (1ull << 60) + (unsigned) n)
SAMPLE(float, 0.5f + (float) n) SAMPLE(double, 2.25 * (n + 1)) SAMPLE(long double, 4.125L * (n + 1))
SAMPLE(std::complex<float>, {1.f, (float) n}) SAMPLE(std::complex<double>, {2., (double) n}) SAMPLE(std::complex<long double>, {3.L, (long double) n})
SAMPLE(string, n == 0 ? string() : n == 1 ? string("text") : string(600, 'x'))
SAMPLE(char const *, n == 0 ? "" : n == 1 ? "literal" : "1")
SAMPLE(vector<bool>, {true, n > 0}) SAMPLE(vector<int>, {1, n}) SAMPLE(vector<string>, {"a", to_string(n)}) SAMPLE(vector<double>, {0.5, (double) n}) SAMPLE(vector<uint8_t>, {1, (uint8_t) n}) SAMPLE(vector<long>, {7, n})
SAMPLE(std::chrono::seconds, std::chrono::seconds(5 + n)) SAMPLE(std::chrono::milliseconds, std::chrono::milliseconds(5000 + n))
SAMPLE(Custom, {n})
template<class... T> struct types {};
using All = types<bool, char, int8_t, uint8_t, int16_t, uint16_t, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, std::complex<float>, std::complex<double>, std::complex<long double>, string, char const *, vector<bool>, vector<int>, vector<string>, vector<double>, vector<uint8_t>, vector<long>, std::chrono::seconds, std::chrono::milliseconds, Custom>;
template<class T> static string txt(T const &v) { std::ostringstream os; os.precision(21); os << v; return os.str(); }
static string txt(char const *v) { return v; }
static string txt(bool v) { return v ? "true" : "false"; }
static string txt(char v) { return to_string((int) v); }
static string txt(int8_t v) { return to_string((int) v); }
static string txt(uint8_t v) { return to_string((int) v); }
static string txt(Custom const &v) { return to_string(v.a); }
static string txt(std::chrono::seconds v) { return to_string(v.count()); }
static string txt(std::chrono::milliseconds v) { return to_string(v.count()); }
template<class T> static string txt(vector<T> const &v) { string s; for (size_t i = 0; i < v.size(); i++) s += txt((T) v[i]) + ";"; return s; }
struct Type { // what the cases need to know about one type
  string name;
  bool is_text, is_cstr;
  variable (*make)(int);
  string (*text)(int);
  bool (*holds)(variable const &, int); // is this exactly the sample value
  string (*read)(variable &, int accessor);
};
static char const *const accessors[] = {"as", "cast_as", "const as", "const cast_as", "as reference", "const as reference"};
template<class R> static string read_as(variable &v, int accessor) {
  variable const &c = v;
  try {
    switch (accessor) {
      case 0: return "value " + txt((R) v.as<R>());
      case 1: return "value " + txt((R) v.cast_as<R>());
      case 2: return "value " + txt((R) c.as<R>());
      case 3: return "value " + txt((R) c.cast_as<R>());
      case 4: return "value " + txt((R) v.as<R const &>());
      default: return "value " + txt((R) c.as<R const &>());
    }
  } catch (std::bad_cast const &) { return "bad-cast error"; } catch (cmdr::exception::cmdr_exception const &) { return "bad-cast error"; } catch (std::exception const &) { return "another exception"; } catch (...) { return "something that is no std::exception"; }
}
template<class S> static Type type_of() {
  return {string(cmdr::debug::type_name<S>()), std::is_same_v<S, string>, std::is_same_v<S, char const *>,
          [](int n) { return variable{sample<S>(n)}; }, [](int n) { return txt(sample<S>(n)); },
          [](variable const &v, int n) { return v.type() == typeid(S) && txt((S) std::any_cast<S const &>(v.underlying_value())) == txt(sample<S>(n)); }, &read_as<S>};
}
template<class... S> static vector<Type> table(types<S...>) { return {type_of<S>()...}; }
static vector<Type> const all_types = table(All{});
static void pair_case(seq::Ctx &x, size_t si, size_t ri, int n, bool empty) {
  Type const &S = all_types[si], &R = all_types[ri];
  string what = (empty ? string("an empty variable") : S.name + " #" + to_string(n)) + " read as " + R.name;
  variable v;
  if (!empty) v = S.make(n);
  variable const &c = v;
  auto intact = [&](string const &by) { x.check("altered", what + ": " + by + " changed the variable", empty ? !v.has_value() && v.empty() && v.type() == typeid(void) : v.has_value() && !v.empty() && S.holds(v, n)); };
  intact("storing it");
  for (int a = 0; a < 6; a++) {
    x.step();
    string want = !empty && si == ri ? "value " + S.text(n) : "bad-cast error";
    // C strings: a text may be read as a C string by the non-const accessors, anything else reads as ""
    if (R.is_cstr && a < 2) want = "value " + (!empty && (S.is_text || S.is_cstr) ? S.text(n) : string());
    x.eq("as", what + " by " + accessors[a], want, R.read(v, a));
    intact(accessors[a]);
  }
  string s1 = v.as_string(), s2 = c.as_string();
  x.eq("text", what + ": printed twice", s1, s2);
  intact("as_string");
  if (empty) x.eq("text", "an empty variable prints as", string("{}"), s1);
}
// ---- sequences over three variables
static string show(variable const &v) {
  if (!v.has_value()) return "(empty)";
  auto const &t = v.type();
  if (t == typeid(int)) return "int " + to_string(v.as<int>());
  if (t == typeid(string)) return "string " + v.as<string>();
  if (t == typeid(vector<variable>)) { string s = "["; for (auto const &e : v.as<vector<variable>>()) s += show(e) + ","; return s + "]"; }
  return string("type ") + t.name();
}
struct Op { string name; std::function<void(vector<variable> &, vector<string> &, int)> run; };
static void set_nested(string &m, int n) { // the model of assigning to element 0 of a vector<variable>
  if (m.empty() || m[0] != '[') return;
  int depth = 0;
  for (size_t i = 1; i < m.size(); i++) {
    if (m[i] == '[') depth++;
    if (m[i] == ']') depth--;
    if (m[i] == ',' && depth == 0) { m = "[int " + to_string(n) + m.substr(i); return; }
  }
}
static vector<Op> make_ops() {
  vector<Op> o;
  auto N = [](int i) { return string(1, (char) ('a' + i)); };
  for (int i = 0; i < 3; i++) {
    size_t a = (size_t) i;
    o.push_back({N(i) + "=int", [=](auto &v, auto &m, int n) { v[a] = 100 + n; m[a] = "int " + to_string(100 + n); }});
    o.push_back({N(i) + "=text lvalue", [=](auto &v, auto &m, int n) { string s = "t" + to_string(n); v[a] = s; m[a] = "string " + s; s = "x"; }});
    o.push_back({N(i) + "=emplace(int)", [=](auto &v, auto &m, int n) { v[a].emplace(200 + n); m[a] = "int " + to_string(200 + n); }});
    o.push_back({N(i) + "=emplace(any)", [=](auto &v, auto &m, int n) { v[a].emplace(std::any{string("any") + to_string(n)}); m[a] = "string any" + to_string(n); }});
    o.push_back({N(i) + "=emplace(const any)", [=](auto &v, auto &m, int n) { std::any const y{300 + n}; v[a].emplace(y); m[a] = "int " + to_string(300 + n); }});
    o.push_back({N(i) + "=emplace(kept any)", [=](auto &v, auto &m, int n) { std::any y{string("kept") + to_string(n)}; v[a].emplace(y); m[a] = "string kept" + to_string(n) + (y.type() == typeid(string) && std::any_cast<string>(y) == "kept" + to_string(n) ? "" : " (source changed)"); }});
    o.push_back({N(i) + ".reset()", [=](auto &v, auto &m, int) { v[a].reset(); m[a] = "(empty)"; }});
    o.push_back({N(i) + "[0]=int", [=](auto &v, auto &m, int n) { if (v[a].type() == typeid(vector<variable>)) { auto &vec = std::any_cast<vector<variable> &>(v[a].underlying_value()); if (!vec.empty()) { vec[0] = 400 + n; set_nested(m[a], 400 + n); } } }});
    o.push_back({"read " + N(i), [=](auto &v, auto &, int) {
                   for (int k = 0; k < 4; k++) try {
                     switch (k) {
                       case 0: (void) v[a].template as<double>(); break;
                       case 1: (void) v[a].template as<char const *>(); break;
                       case 2: (void) v[a].as_string(); break;
                       case 3: (void) v[a].template as<string>(); break;
                     }
                   } catch (std::exception const &) {}
                 }});
    o.push_back({N(i) + " << \"77\"", [=](auto &v, auto &m, int) {
                   if (m[a][0] == '[') return;
                   std::istringstream is("77");
                   is >> v[a];
                   if (m[a].rfind("int", 0) == 0) m[a] = "int 77";
                   if (m[a].rfind("string", 0) == 0) m[a] = "string 77";
                 }});
    for (int j = 0; j < 3; j++) {
      size_t b = (size_t) j;
      o.push_back({N(i) + "=" + N(j), [=](auto &v, auto &m, int) { v[a] = v[b]; m[a] = string(m[b]); }});
      o.push_back({N(i) + "=const " + N(j), [=](auto &v, auto &m, int) { v[a] = (variable const &) v[b]; m[a] = string(m[b]); }});
      o.push_back({N(j) + ".clone_to(" + N(i) + ")", [=](auto &v, auto &m, int) { v[b].clone_to(v[a]); m[a] = string(m[b]); }});
      o.push_back({N(i) + ".emplace(" + N(j) + ")", [=](auto &v, auto &m, int) { v[a].emplace(v[b]); m[a] = string(m[b]); }});
      o.push_back({N(i) + ".emplace(const " + N(j) + ")", [=](auto &v, auto &m, int) { v[a].emplace((variable const &) v[b]); m[a] = string(m[b]); }});
      o.push_back({N(i) + "=vector{" + N(j) + ",text}", [=](auto &v, auto &m, int n) { if (m[b].size() > 60) return; string old = m[b]; v[a] = vector<variable>{v[b], variable{to_string(n)}}; m[a] = "[" + old + ",string " + to_string(n) + ",]"; }});
      if (i != j) {
        o.push_back({N(i) + "=move(" + N(j) + ")", [=](auto &v, auto &m, int) { v[a] = std::move(v[b]); m[a] = m[b]; v[b].reset(); m[b] = "(empty)"; }});
        o.push_back({N(i) + ".emplace(move(" + N(j) + "))", [=](auto &v, auto &m, int) { v[a].emplace(std::move(v[b])); m[a] = m[b]; v[b].reset(); m[b] = "(empty)"; }});
        o.push_back({N(i) + "=variable(" + N(j) + ")", [=](auto &v, auto &m, int) { variable t(v[b]); v[a] = std::move(t); m[a] = m[b]; }});
      }
    }
  }
  return o;
}
static vector<Op> const ops = make_ops();
static void seq_case(uint64_t idx, unsigned len, seq::Ctx &x) {
  vector<variable> v(3);
  vector<string> m(3, "(empty)");
  string h;
  int n = 0;
  for (int d : seq::word_at(idx, ops.size(), len, len)) {
    auto const &op = ops[(size_t) d];
    h += (h.empty() ? "" : "; ") + op.name;
    op.run(v, m, n++);
    x.step();
    for (size_t k = 0; k < 3; k++) {
      x.eq("value", "after " + h + ": " + string(1, (char) ('a' + k)), m[k], show(v[k]));
      x.check("empty", "after " + h + ": " + string(1, (char) ('a' + k)) + " empty()/has_value()", v[k].empty() == (m[k] == "(empty)") && v[k].has_value() != v[k].empty());
    }
    x.state(seq::fnv(m[0] + "|" + m[1] + "|" + m[2]));
  }
  x.interesting();
  x.outcome(m[0] + "|" + m[1] + "|" + m[2]);
}
// text handed out as a C string stays what it was while its variable lives unchanged
static void cstr_case(uint64_t i, seq::Ctx &x) {
  seq::Digits d(i);
  static vector<string> const texts{"", "a", "b", "a longer text than a small string holds", string(200, 'x')};
  vector<variable> v;
  v.reserve(4);
  vector<string> w;
  vector<char const *> p;
  for (int k = 0; k < 3; k++) { w.push_back(texts[d.take(texts.size())]); if (d.take(2)) v.emplace_back(w.back()); else v.emplace_back(w.back().c_str()); }
  bool keep = false;
  for (auto &y : v) {
    if (y.type() != typeid(string)) { p.push_back(nullptr); continue; }
    keep = true;
    p.push_back(y.as<char const *>());
    x.step();
  }
  if (keep) x.interesting();
  x.state(i);
  for (size_t k = 0; k < v.size(); k++) if (p[k]) x.eq("c-string", "texts " + w[0] + "|" + w[1] + "|" + w[2] + ": C string " + to_string(k), w[k], string(p[k]));
}
static string seq_text(uint64_t idx, unsigned len) { string h; for (int d : seq::word_at(idx, ops.size(), len, len)) h += (h.empty() ? "" : "; ") + ops[(size_t) d].name; return h; }
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  size_t n = all_types.size();
  sp.push_back({"pairs", n * n * 3 * 2, [=](uint64_t i, seq::Ctx &x) { seq::Digits d(i); bool e = d.take(2); int k = (int) d.take(3); size_t s = d.take(n); x.interesting(); x.state(i); pair_case(x, s, d.v, k, e); }, [=](uint64_t i) { return "pair #" + to_string(i); }});
  unsigned L = T ? 4 : 3;
  sp.push_back({"sequences", seq::words_count(ops.size(), L, L), [=](uint64_t i, seq::Ctx &x) { seq_case(i, L, x); }, [=](uint64_t i) { return seq_text(i, L); }});
  sp.push_back({"c-strings", 5 * 5 * 5 * 8, cstr_case, [](uint64_t i) { return "c-strings #" + to_string(i); }});
  return seq::run(argc, argv, "V02", sp, "29 stored types x 29 read types x sample values x every accessor; all operation sequences over three variables (sets, emplaces, copies, moves, clones, nesting in vectors, reads, parsing)");
}
