// D04 string utilities: all short strings over alphabets of letters, blanks, quotes and separators x all short patterns, against plain definitions
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_string.hh>
using std::string; using std::to_string; using std::vector;
namespace cs = cmdr::string;
using Strs = vector<string>;
static string show(string const &s) { string r = "'"; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c; } return r + "'"; }
static string show(Strs const &v) { string r = "["; for (auto const &s : v) r += show(s) + " "; return r + "]"; }
// definitions
static bool starts(string const &s, string const &p) { if (p.size() > s.size()) return false; for (size_t i = 0; i < p.size(); i++) if (s[i] != p[i]) return false; return true; }
static bool ends(string const &s, string const &p) { if (p.size() > s.size()) return false; for (size_t i = 0; i < p.size(); i++) if (s[s.size() - p.size() + i] != p[i]) return false; return true; }
static bool at(string const &s, size_t i, string const &p) { return i + p.size() <= s.size() && starts(string(s.begin() + (long) i, s.end()), p); }
static string cut(string const &s, size_t a, size_t b) { string r; for (size_t i = a; i < b; i++) r += s[i]; return r; }
static Strs pieces(string const &s, string const &sep) { // at every occurrence from the left, not overlapping
  Strs r{""};
  for (size_t i = 0; i < s.size();) if (!sep.empty() && at(s, i, sep)) { r.push_back(""); i += sep.size(); } else r.back() += s[i++];
  return r;
}
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static string ltrim(string s) { while (!s.empty() && blank(s[0])) s.erase(s.begin()); return s; }
static string rtrim(string s) { while (!s.empty() && blank(s.back())) s.pop_back(); return s; }
static string up(string s) { for (char &c : s) if (c >= 'a' && c <= 'z') c = (char) (c - 32); return s; }
static string low(string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }
static bool quote(char c) { return c == '\'' || c == '"'; }
static void unary(seq::Ctx &x, string const &s) {
  x.step(); x.interesting();
  string w = show(s), t;
  x.eq("trim", "trim " + w, show(ltrim(rtrim(s))), show(cs::trim(s)));
  x.eq("trim", "trim_left " + w, show(ltrim(s)), show(cs::trim_left(s)));
  x.eq("trim", "trim_right " + w, show(rtrim(s)), show(cs::trim_right(s)));
  t = s; x.eq("trim", "trim_left_space " + w, show(ltrim(s)), show(cs::trim_left_space(t))); x.eq("trim", "trim_left_space in place " + w, show(ltrim(s)), show(t));
  t = s; x.eq("trim", "trim_right_space " + w, show(rtrim(s)), show(cs::trim_right_space(t))); x.eq("trim", "trim_right_space in place " + w, show(rtrim(s)), show(t));
  x.eq("trim", "trim_left_space of a temporary " + w, show(ltrim(s)), show(cs::trim_left_space(string(s))));
  x.eq("trim", "trim_right_space of a temporary " + w, show(rtrim(s)), show(cs::trim_right_space(string(s))));
  Strs words;
  for (bool in = false; char c : s) if (blank(c)) in = false; else { if (!in) words.push_back(""); in = true; words.back() += c; }
  x.eq("tokenize", "tokenize " + w, show(words), show(cs::tokenize(s)));
  for (char c : {',', ' ', 'a', '\''}) {
    Strs want, lines = pieces(s, string(1, c));
    for (auto const &p : lines) if (!p.empty()) want.push_back(p);
    x.eq("tokenize", "tokenize " + w + " by " + c, show(want), show(cs::tokenize(s, c)));
    if (lines.back().empty()) lines.pop_back(); // a terminated last piece, as for lines
    x.eq("split", "split " + w + " by " + c, show(lines), show(cs::split(s, c)));
    std::istringstream is(s);
    Strs got;
    string l;
    for (int k = 0; k < 20 && cs::read_until(is, l, string(1, c).c_str()); k++) got.push_back(l);
    x.eq("read_until", "pieces of " + w + " read until " + c, show(lines), show(got));
    std::istringstream i2(s);
    x.eq("read_until", w + " read until " + c, show(lines.empty() ? "" : lines[0]), show(cs::read_until(i2, c)));
    std::istringstream i3(s);
    x.eq("read_until", w + " read until text " + c, show(lines.empty() ? "" : lines[0]), show(cs::read_until(i3, string(1, c).c_str())));
  }
  Strs lines{""};
  for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n') lines.push_back(""); else if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') { lines.push_back(""); i++; } else lines.back() += s[i];
  if (lines.size() > 1 && lines.back().empty()) lines.pop_back();
  x.eq("split", "lines of " + w, show(lines), show(cs::reg_split(s)));
  for (size_t n : {0, 1, 2, 5})
    for (char c : {' ', '.'}) {
      string want;
      if (lines.size() <= 1) want = string(n, c) + s; else for (auto const &l2 : lines) want += string(n, c) + l2 + "\n";
      x.eq("pad", "pad_left " + w + " by " + to_string(n), show(want), show(cs::pad_left(s, n, c)));
      t = s; cs::pad(t, n, c);
      x.eq("pad", "pad " + w + " to " + to_string(n), show(s + (n > s.size() ? string(n - s.size(), c) : "")), show(t));
    }
  t = s; cs::to_upper(t); x.eq("case", "to_upper " + w, show(up(s)), show(t));
  t = s; cs::to_lower(t); x.eq("case", "to_lower " + w, show(low(s)), show(t));
  t = s; cs::to_upper_t(t); x.eq("case", "to_upper_t " + w, show(up(s)), show(t));
  t = s; cs::to_lower_t(t); x.eq("case", "to_lower_t " + w, show(low(s)), show(t));
  x.eq("quote", "quoted " + w, show("\"" + s + "\""), show(cs::quoted(s)));
  x.eq("quote", "wrap " + w, show("[" + s + "]"), show(cs::wrap(s, '[', ']')));
  x.eq("quote", "wrap by texts " + w, show("<<" + s + ">"), show(cs::wrap(s, "<<", ">")));
  x.eq("quote", "wrap by strings " + w, show("<<" + s + ">"), show(cs::wrap(s, string("<<"), string(">"))));
  size_t a = 0, b = s.size();
  while (a < b && quote(s[a])) a++;
  while (b > a && quote(s[b - 1])) b--;
  x.eq("quote", "strip_quotes " + w, show(cut(s, a, b)), show(cs::strip_quotes(s)));
  x.outcome(t);
}
static void binary(seq::Ctx &x, string const &s, string const &p, Strs const &tos) {
  x.step(); x.interesting();
  string w = show(s) + " with " + show(p), t;
  x.check("prefix", "has_prefix " + w, cs::has_prefix(s, p) == starts(s, p) && cs::has_prefix(s, p.c_str()) == starts(s, p));
  x.check("prefix", "has_suffix " + w, cs::has_suffix(s, p) == ends(s, p) && cs::has_suffix(s, p.c_str()) == ends(s, p));
  Strs got, want = p.empty() ? Strs{s} : pieces(s, p);
  cs::split(s, p, std::back_inserter(got));
  x.eq("split", "split " + w, show(want), show(got));
  for (auto const &to : tos) {
    string all = want[0];
    for (size_t i = 1; i < want.size(); i++) all += to + want[i];
    t = s; cs::replace_all(t, p, to);
    x.eq("replace", "replace_all in " + w + " by " + show(to), show(all), show(t));
    bool found = p.empty() || want.size() > 1;
    string one = s;
    for (size_t i = 0; i <= s.size() && found; i++) if (at(s, i, p)) { one = cut(s, 0, i) + to + cut(s, i + p.size(), s.size()); break; }
    t = s;
    x.check("replace", "replace in " + w + " by " + show(to) + " reports", cs::replace(t, p, to) == found);
    x.eq("replace", "replace in " + w + " by " + show(to), show(one), show(t));
    // strip a prefix and a suffix
    string st = s;
    if (starts(st, p)) st = cut(st, p.size(), st.size());
    if (ends(st, to) && ends(s, to)) st = cut(st, 0, st.size() - to.size());
    x.eq("strip", "strip " + show(s) + " of " + show(p) + " and " + show(to), show(st), show(cs::strip(s, p.c_str(), to.c_str())));
  }
  if (!p.empty()) { // reading piece by piece
    Strs lines = want;
    if (lines.back().empty()) lines.pop_back();
    std::istringstream is(s), i2(s);
    string l;
    got.clear();
    for (int k = 0; k < 20 && cs::read_until(is, l, p.c_str()); k++) got.push_back(l);
    x.eq("read_until", "pieces of " + show(s) + " read until " + show(p), show(lines), show(got));
    got.clear();
    for (int k = 0; k < 20 && i2.peek() != EOF; k++) got.push_back(cs::read_until(i2, p.c_str()));
    x.eq("read_until", "pieces of " + show(s) + " read until " + show(p) + " without result", show(lines), show(got));
  }
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  string al = "aB \n'\",[\r";
  unsigned L = T ? 6 : 5;
  auto str = [](uint64_t i, string const &a, unsigned lo, unsigned hi) { string s; for (int d : seq::word_at(i, a.size(), lo, hi)) s += a[(size_t) d]; return s; };
  sp.push_back({"unary", seq::words_count(al.size(), 0, L), [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); unary(x, str(i, al, 0, L)); }, [=](uint64_t i) { return show(str(i, al, 0, L)); }});
  // each byte value, alone and between others
  sp.push_back({"bytes", 255 * 4, [=](uint64_t i, seq::Ctx &x) { string b(1, (char) (i / 4 + 1)); x.state(i); unary(x, i % 4 == 0 ? b : i % 4 == 1 ? b + "a" : i % 4 == 2 ? "a" + b : " " + b + " "); }, [=](uint64_t i) { return "byte " + to_string(i / 4 + 1); }});
  string a2 = "ab";
  unsigned l2 = T ? 9 : 7, p2 = 4;
  Strs tos{"", "a", "b", "ab", "ba", "aab"};
  uint64_t np = seq::words_count(2, 0, p2);
  sp.push_back({"patterns", seq::words_count(2, 0, l2) * np, [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); binary(x, str(i / np, a2, 0, l2), str(i % np, a2, 0, p2), tos); }, [=](uint64_t i) { return show(str(i / np, a2, 0, l2)) + " " + show(str(i % np, a2, 0, p2)); }});
  string a3 = "{},";
  unsigned l3 = T ? 7 : 6;
  uint64_t np3 = seq::words_count(3, 0, 3);
  sp.push_back({"delimiters", seq::words_count(3, 0, l3) * np3, [=](uint64_t i, seq::Ctx &x) { x.state(i % 65536); binary(x, str(i / np3, a3, 0, l3), str(i % np3, a3, 0, 3), {"", "{", "},"}); }, [=](uint64_t i) { return show(str(i / np3, a3, 0, l3)) + " " + show(str(i % np3, a3, 0, 3)); }});
  // joining; splitting the result gives the items back
  Strs items{"", "a", "bc", "-", " "};
  sp.push_back({"join", seq::words_count(5, 0, T ? 6 : 5), [=](uint64_t i, seq::Ctx &x) {
                  Strs v;
                  vector<char const *> c;
                  for (int d : seq::word_at(i, 5, 0, T ? 6 : 5)) { v.push_back(items[(size_t) d]); c.push_back(items[(size_t) d].c_str()); }
                  x.step(); x.interesting(); x.state(i);
                  auto want = [&](string const &d, string const &a, string const &b) { string r = a; for (size_t k = 0; k < v.size(); k++) r += (k ? d : "") + v[k]; return r + b; };
                  x.eq("join", "join " + show(v), show(want(",", "", "")), show(cs::join(v, ',')));
                  x.eq("join", "join with brackets " + show(v), show(want(";", "[", "]")), show(cs::join(v, ';', '[', ']')));
                  x.eq("join", "join with texts " + show(v), show(want("; ", "<", ">>")), show(cs::join(v, "; ", "<", ">>")));
                  x.eq("join", "join with texts " + show(v), show(want("; ", "", "")), show(cs::join(v, "; ")));
                  x.eq("join", "join C strings " + show(v), show(want(",", "(", ")")), show(cs::join(c, ',', '(', ')')));
                  x.eq("join", "join C strings with texts " + show(v), show(want("--", "(", "")), show(cs::join(c, "--", "(")));
                  Strs back;
                  cs::split(cs::join(v, ","), ",", std::back_inserter(back));
                  if (!v.empty()) x.eq("join", "joined and split " + show(v), show(v), show(back));
                }, [=](uint64_t i) { return "items #" + to_string(i); }});
  // integers: small ones, around powers of ten, the limits; into strings of any previous content
  vector<long> ints;
  for (long p = 1; p <= 10000000000L; p *= 10) for (long d = -120; d <= 120; d++) for (long m : {1L, 2L, 5L, 9L}) { ints.push_back(p * m + d); ints.push_back(-p * m + d); }
  for (long d = 0; d < 300; d++) { ints.push_back(2147483647L - d); ints.push_back(-2147483648L + d); ints.push_back(4294967295L - d); }
  long small = T ? 2000000 : 70000;
  sp.push_back({"numbers", (uint64_t) (2 * small) + ints.size(), [=](uint64_t i, seq::Ctx &x) {
                  long v = i < (uint64_t) (2 * small) ? (long) i - small : ints[i - (uint64_t) (2 * small)];
                  x.step(); x.interesting(); x.state(i % 65536);
                  for (string const &init : {string(), string("previous content"), string(40, 'x')}) {
                    if (v >= -2147483648L && v <= 2147483647L) { string s = init; string &r = cs::conv::itoa((int) v, s); x.eq("itoa", "itoa " + to_string(v), to_string(v), s); x.check("itoa", "itoa returns its argument", &r == &s); }
                    if (v >= 0 && v <= 4294967295L) { string s = init; cs::conv::itoa((unsigned) v, s); x.eq("itoa", "itoa of unsigned " + to_string(v), to_string(v), s); }
                  }
                }, [=](uint64_t i) { return "number #" + to_string(i); }});
  return seq::run(argc, argv, "D04", sp, "all strings up to a length over letters, blanks, quotes and separators; all short texts x all short patterns x replacements; all bytes; joined lists; integers around powers of ten and the limits");
}
