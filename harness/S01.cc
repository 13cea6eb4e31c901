// S01 option store: all sequences of sets (several value forms) and resets over overlapping dotted keys, against a flat map
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_var_t.hh>
using std::string; using std::to_string; using std::vector;
using Store = cmdr::vars::store;
using cmdr::vars::variable;
static string show(variable const &v) {
  if (!v.has_value()) return "(empty)";
  auto const &t = v.type();
  if (t == typeid(bool)) return v.as<bool>() ? "bool true" : "bool false";
  if (t == typeid(int)) return "int " + to_string(v.as<int>());
  if (t == typeid(unsigned)) return "unsigned " + to_string(v.as<unsigned>());
  if (t == typeid(double)) return "double " + to_string(v.as<double>());
  if (t == typeid(string)) return "string " + v.as<string>();
  if (t == typeid(char const *)) return string("literal ") + v.as<char const *>();
  if (t == typeid(vector<string>)) { string s = "strings"; for (auto const &x : v.as<vector<string>>()) s += " " + x; return s; }
  if (t == typeid(vector<int>)) { string s = "ints"; for (auto const &x : v.as<vector<int>>()) s += " " + to_string(x); return s; }
  return string("something of type ") + t.name();
}
static vector<char const *> const keys{"a", "b", "a.b", "a.c", "a.b.c", "b.a", "a.b.c.d", "ab", "a.", ".a", "", "a..b", "app.cli.x"};
static vector<char const *> const never{"c", "a.d", "a.b.d", "b.b", "a.b.c.e", "x.y", "a.b.", "abc"};
static vector<char const *> const lits{"lit0", "lit1", "lit2", "lit3", "lit4", "lit5", "lit6", "lit7"};
enum { INT, STR, BOOL, LIT, DBL, VARC, VARM, VARL, VEC, UNS, LINT, PINT, PSTR, PVARM, PVARL, VINTS, NKINDS };
static char const *names[] = {"int", "string", "bool", "literal", "double", "const variable", "moved variable", "variable", "vector<string>", "unsigned", "int lvalue", "int via prefix", "string via prefix", "moved variable via prefix", "variable via prefix", "vector<int>"};
// sets the key in one of the ways the store offers; n makes the value unique
static string put(Store &s, char const *k, int kind, int n) {
  string str = "text " + to_string(n);
  string pre, rest = k; // a split of the key for the prefixed forms
  if (auto p = rest.find('.'); p != string::npos && p > 0 && p + 1 < rest.size()) { pre = rest.substr(0, p); rest = rest.substr(p + 1); }
  switch (kind) {
    case INT: s.set_raw(k, 100 + n); return "int " + to_string(100 + n);
    case LINT: { int v = 200 + n; s.set_raw(k, v); v = 0; return "int " + to_string(200 + n); }
    case STR: s.set_raw(k, str); str = "changed"; return "string text " + to_string(n);
    case BOOL: s.set_raw(k, n % 2 == 0); return n % 2 == 0 ? "bool true" : "bool false";
    case LIT: { char const *l = lits[(size_t) n % lits.size()]; s.set_raw(k, l); return string("literal ") + l; }
    case DBL: s.set_raw(k, n + 0.5); return "double " + to_string(n + 0.5);
    case VARC: { variable const v{300 + n}; s.set_raw(k, v); return "int " + to_string(300 + n); }
    case VARM: s.set_raw(k, variable{400 + n}); return "int " + to_string(400 + n);
    case VARL: { variable v{str}; s.set_raw(k, v); return "string " + str; }
    case VEC: s.set_raw(k, vector<string>{str, "x"}); return "strings " + str + " x";
    case UNS: s.set_raw(k, (unsigned) n); return "unsigned " + to_string(n);
    case PINT: s.set_raw_p(pre.c_str(), rest.c_str(), 500 + n); return "int " + to_string(500 + n);
    case PSTR: s.set_raw_p(pre.c_str(), rest.c_str(), str); return "string " + str;
    case PVARM: s.set_raw_p(pre.c_str(), rest.c_str(), variable{str}); return "string " + str;
    case PVARL: { variable v{600 + n}; s.set_raw_p(pre.c_str(), rest.c_str(), v); v = 0; return "int " + to_string(600 + n); }
    case VINTS: s.set_raw(k, vector<int>{n, n + 1}); return "ints " + to_string(n) + " " + to_string(n + 1);
  }
  return "";
}
static void observe(seq::Ctx &x, Store &s, std::map<string, string> const &m, string const &h) {
  Store const &c = s;
  auto look = [&](string const &k) {
    auto it     = m.find(k);
    string want = it == m.end() ? "(empty)" : it->second;
    x.eq("get", h + ": get of '" + k + "'", want, show(s.get_raw(k)));
    x.eq("get", h + ": const get of '" + k + "'", want, show(c.get_raw(k.c_str())));
    x.check("has", h + ": has of '" + k + "'", s.has("", k.c_str()) == (it != m.end()));
    x.check("has", h + ": has without prefix of '" + k + "'", c.has(nullptr, k.c_str()) == (it != m.end()));
  };
  for (auto *k : keys) look(k);
  for (auto *k : never) look(k);
}
struct Op { int key, kind; };
static void play(seq::Ctx &x, vector<Op> const &ops) {
  Store s;
  std::map<string, string> m;
  string h;
  int n = 0;
  for (auto o : ops) {
    x.step();
    if (o.key < 0) { s.reset(); m.clear(); h += "reset; "; }
    else { m[keys[(size_t) o.key]] = put(s, keys[(size_t) o.key], o.kind, n); h += string("set '") + keys[(size_t) o.key] + "' to " + names[o.kind] + "; "; }
    n++;
    observe(x, s, m, h);
    if (n > 1) x.interesting();
  }
  string st;
  for (auto &e : m) st += e.first + "=" + e.second + ";";
  x.state(seq::fnv(st));
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto space = [&](string name, vector<int> ks, vector<int> kinds, unsigned lo, unsigned hi) {
    uint64_t n = ks.size() * kinds.size() + 1;
    auto seq_of = [=](uint64_t i) { vector<Op> r; for (int d : seq::word_at(i, n, lo, hi)) { if (d == 0) r.push_back({-1, 0}); else { d--; r.push_back({ks[(size_t) d / kinds.size()], kinds[(size_t) d % kinds.size()]}); } } return r; };
    sp.push_back({name, seq::words_count(n, lo, hi), [=](uint64_t i, seq::Ctx &x) { play(x, seq_of(i)); }, [=](uint64_t i) { string s; for (auto o : seq_of(i)) s += o.key < 0 ? string("reset; ") : string("set '") + keys[(size_t) o.key] + "' " + names[o.kind] + "; "; return s; }});
  };
  vector<int> allk, all;
  for (size_t i = 0; i < keys.size(); i++) allk.push_back((int) i);
  for (int i = 0; i < NKINDS; i++) all.push_back(i);
  space("forms", {0, 2, 4}, all, 1, T ? 3 : 2);
  space("keys", allk, {INT, VARM, STR}, 1, T ? 3 : 2);
  space("histories", {0, 2, 3, 4, 1}, {INT, VARL}, 1, T ? 5 : 4);
  space("overwrites", {2, 4}, {INT, STR, LIT, VARC, VARM, PVARL, VEC}, 1, T ? 4 : 3);
  return seq::run(argc, argv, "S01", sp, "all sequences of sets in every value form and resets over overlapping dotted keys, every key (set, unset, path of another) read after every step and compared with a flat map");
}
