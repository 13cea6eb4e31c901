// D05 environment expansion: all short texts over $, braces, name characters and others x environments with self-referring values
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_string.hh>
using std::string; using std::to_string; using std::vector;
// value of a name; nullptr unset
static vector<vector<char const *>> const envs = [] {
  vector<vector<char const *>> r;
  vector<char const *> vals{nullptr, "", "v", "$A", "${A}", "$B", "x${B}y", "$", "$1\\0$&$`"};
  for (auto a : vals) for (auto b : vals) r.push_back({a, b, "long AB", "one"});
  return r;
}();
static char const *const names[] = {"A", "B", "AB", "A_1"};
static bool name_char(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static string value(vector<char const *> const &e, string const &n) {
  for (size_t i = 0; i < e.size(); i++) if (n == names[i]) return e[i] ? e[i] : "";
  return "";
}
// from the left: $NAME (the longest name) or ${NAME}
static string expanded(string const &t, vector<char const *> const &e) {
  string r;
  for (size_t i = 0; i < t.size();) {
    if (t[i] == '$') {
      bool br  = i + 1 < t.size() && t[i + 1] == '{';
      size_t a = i + 1 + br, b = a;
      while (b < t.size() && name_char(t[b])) b++;
      if (b > a && (!br || (b < t.size() && t[b] == '}'))) { r += value(e, t.substr(a, b - a)); i = b + br; continue; }
    }
    r += t[i++];
  }
  return r;
}
static string expand(string const &t) { return cmdr::string::expand_env(t); }
static void use(vector<char const *> const &e) {
  static vector<char const *> cur;
  if (cur == e) return;
  cur = e;
  for (size_t i = 0; i < e.size(); i++) if (e[i]) setenv(names[i], e[i], 1); else unsetenv(names[i]);
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  vector<string> tok{"$", "{", "}", "A", "B", "_1", " ", "C"};
  unsigned L = T ? 6 : 4;
  auto text = [=](uint64_t i, unsigned lo, unsigned hi) { string s; for (int d : seq::word_at(i, tok.size(), lo, hi)) s += tok[(size_t) d]; return s; };
  uint64_t n = seq::words_count(tok.size(), 0, L);
  sp.push_back({"texts", n * envs.size(), [=](uint64_t i, seq::Ctx &x) {
                  auto const &e = envs[i / n];
                  use(e);
                  string t = text(i % n, 0, L), want = expanded(t, e);
                  x.step(); x.interesting(); x.state(i % n);
                  x.outcome(want);
                  string got = expand(t);
                  x.eq("expand", "'" + t + "' with A=" + (e[0] ? e[0] : "(unset)") + " B=" + (e[1] ? e[1] : "(unset)"), want, got);
                }, [=](uint64_t i) { auto const &e = envs[i / n]; return "'" + text(i % n, 0, L) + "' with A=" + (e[0] ? e[0] : "(unset)") + " B=" + (e[1] ? e[1] : "(unset)"); }});
  // longer texts: sequences of whole references and literals
  vector<string> ref{"$A", "${A}", "$B", "${B}", "$AB", "${A_1}", "${AB", "$", "-", "/", "}", "$UNSET_NAME"};
  unsigned rl = T ? 5 : 3;
  uint64_t m  = seq::words_count(ref.size(), 1, rl);
  auto rtext  = [=](uint64_t i) { string s; for (int d : seq::word_at(i, ref.size(), 1, rl)) s += ref[(size_t) d]; return s; };
  sp.push_back({"references", m * envs.size(), [=](uint64_t i, seq::Ctx &x) {
                  auto const &e = envs[i / m];
                  use(e);
                  string t = rtext(i % m);
                  x.step(); x.interesting(); x.state(i % m);
                  x.eq("expand", "'" + t + "' with A=" + (e[0] ? e[0] : "(unset)") + " B=" + (e[1] ? e[1] : "(unset)"), expanded(t, e), expand(t));
                }, [=](uint64_t i) { auto const &e = envs[i / m]; return "'" + rtext(i % m) + "' with A=" + (e[0] ? e[0] : "(unset)") + " B=" + (e[1] ? e[1] : "(unset)"); }});
  // every byte next to a reference
  sp.push_back({"bytes", 255 * 4, [=](uint64_t i, seq::Ctx &x) {
                  auto const &e = envs[2 * 9 + 2];
                  use(e);
                  string b(1, (char) (i / 4 + 1)), t = i % 4 == 0 ? "$A" + b : i % 4 == 1 ? b + "$A" : i % 4 == 2 ? "${A" + b + "}" : "$" + b + "A";
                  x.step(); x.interesting(); x.state(i);
                  x.eq("expand", "byte " + to_string(i / 4 + 1) + " in '" + t + "'", expanded(t, e), expand(t));
                }, [=](uint64_t i) { return "byte " + to_string(i / 4 + 1) + " form " + to_string(i % 4); }});
  return seq::run(argc, argv, "D05", sp, "all token sequences over $, braces, names and others, and sequences of references, in 81 environments including values that refer to themselves or each other");
}
