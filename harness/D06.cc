// D06 similarity: all pairs of short texts, against the Jaro definition, symmetry, range, thresholds and reuse of the object
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_string.hh>
using std::string; using std::to_string; using std::vector;
using Jw = cmdr::text::jaro_winkler_distance;
static double jaro(string const &a, string const &b) {
  if (a.empty() || b.empty()) return 0;
  if (a == b) return 1;
  int la = (int) a.size(), lb = (int) b.size(), w = std::max(la, lb) / 2 - 1, m = 0;
  vector<char> ua((size_t) la, 0), ub((size_t) lb, 0);
  for (int i = 0; i < la; i++)
    for (int j = 0; j < lb; j++)
      if (j >= i - w && j <= i + w && !ub[(size_t) j] && a[(size_t) i] == b[(size_t) j]) { ua[(size_t) i] = ub[(size_t) j] = 1; m++; break; }
  if (!m) return 0;
  string sa, sb;
  for (int i = 0; i < la; i++) if (ua[(size_t) i]) sa += a[(size_t) i];
  for (int i = 0; i < lb; i++) if (ub[(size_t) i]) sb += b[(size_t) i];
  int t = 0;
  for (int i = 0; i < m; i++) t += sa[(size_t) i] != sb[(size_t) i];
  return ((double) m / la + (double) m / lb + (m - t / 2.0) / m) / 3;
}
static string lower(string s) { for (char &c : s) c = (char) tolower(c); return s; }
static bool near(double a, double b) { return std::abs(a - b) < 1e-9; }
static void pair_case(seq::Ctx &x, string const &a, string const &b, Jw &reused) {
  x.step(); x.interesting();
  string w = "'" + a + "' and '" + b + "'";
  double want = jaro(a, b), wanti = jaro(lower(a), lower(b));
  Jw d;
  double got = d(a.c_str(), b.c_str());
  x.outcome(to_string(got));
  x.check("definition", w + " give " + to_string(got) + ", by definition " + to_string(want), near(got, want));
  x.check("range", w + " give " + to_string(got), got >= 0 && got <= 1);
  if (!a.empty() && !b.empty()) x.check("equal", w + " give " + to_string(got), (got == 1) == (a == b));
  Jw e;
  double back = e(b.c_str(), a.c_str());
  x.check("symmetric", w + " give " + to_string(got) + " and " + to_string(back), near(got, back));
  Jw i(0.7, false);
  double ig = i(a.c_str(), b.c_str());
  x.check("case", w + " give " + to_string(ig) + " without case, by definition " + to_string(wanti), near(ig, wanti));
  // the object remembers the last score, whatever was calculated before
  auto &r = reused.calculate(a.c_str(), b.c_str());
  x.check("object", w + " calculated", &r == &reused && near(reused.get_distance(), want) && near((double) reused, want) && (reused == want) && reused.equal(want));
  for (double th : {0.0, 0.5, 0.7, 0.85, 1.0}) {
    Jw t(th);
    t.calculate(a.c_str(), b.c_str());
    if (!near(want, th)) x.check("matched", w + " (" + to_string(want) + ") with threshold " + to_string(th), t.matched() == (want > th));
    else x.check("matched", w + " (" + to_string(want) + ") with threshold " + to_string(th), t.matched());
  }
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto add = [&](string name, string al, unsigned L) {
    uint64_t n = seq::words_count(al.size(), 0, L);
    auto str = [=](uint64_t i) { string s; for (int d : seq::word_at(i, al.size(), 0, L)) s += al[(size_t) d]; return s; };
    sp.push_back({name, n, [=](uint64_t i, seq::Ctx &x) { static Jw reused; x.state(i % 65536); for (uint64_t j = 0; j < n; j++) pair_case(x, str(i), str(j), reused); }, [=](uint64_t i) { return "'" + str(i) + "' and all others"; }});
  };
  add("two letters", "ab", T ? 9 : 7);
  add("three letters", "abc", T ? 7 : 6);
  add("five letters", "abcde", T ? 4 : 3);
  add("cases", "aAbB", T ? 5 : 4);
  return seq::run(argc, argv, "D06", sp, "all pairs of texts up to a length over 2, 3, 5 letters and over two letters in both cases");
}
