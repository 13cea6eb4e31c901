// C02 option values: every sequence of option spellings and values over flags of all value types
// KIND: fast
#include "cli.hh"
using namespace cli;
static C tree() {
  C t;
  t << f("num", "n").al("number").of('i', "7") << f("uns", "u").of('u', "8") << f("name", "m").al("title").of('s', "dflt") << f("ratio", "o").of('d', "1.5") << f("big", "i").of('l', "9");
  t << f("yes", "y").al("sure") << f("on", "x").of('b', "true");
  t << (c("go", "") << f("port", "p").of('i', "80") << f("host", "t").of('s', "") << f("loud", "z"));
  return t;
}
static C tight() { // the documented example: -r3ap1zq
  C t;
  t << (c("go") << f("retry", "r").of('i', "5") << f("all", "a") << f("ap", "ap").of('i', "0") << f("port", "p").of('i', "80") << f("zq", "zq") << f("z", "z") << f("q2", "q") << f("text", "t").of('s', "d") << f("rate", "f").of('d', "0.5"));
  return t;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto t = std::make_shared<C>(tree());
  auto around = [&](string name, strs pre, Words w, strs post) {
    auto full = [=](uint64_t i) { auto a = pre; auto b = w.at(i); a.insert(a.end(), b.begin(), b.end()); a.insert(a.end(), post.begin(), post.end()); return a; };
    sp.push_back({name, w.size(), [=](uint64_t i, seq::Ctx &x) { standard(x, *t, full(i)); }, [=](uint64_t i) { return cmdline(full(i)); }});
  };
  // one flag, all spellings x all values, at the end and before something else
  strs sp1;
  struct T1 { char const *L, *S, *A; } fl[] = {{"num", "n", "number"}, {"uns", "u", ""}, {"name", "m", "title"}, {"ratio", "o", ""}, {"big", "i", ""}};
  strs vals{"0", "1", "42", "-5", "+5", "007", "2147483647", "2147483648", "-2147483648", "4294967295", "9999999999", "1.25", "-0.5", "3e2", ".5", "abc", "a=b", "\"q\"", "'q r'", "go", "a b", "--num", "1x", "x1", "=", "a-b", "a+"};
  vector<strs> singles;
  for (auto &x: fl)
    for (auto &v: vals) {
      string L = x.L, S = x.S, A = x.A;
      singles.push_back({"--" + L + "=" + v}); singles.push_back({"--" + L, v}); singles.push_back({"--" + L + v});
      singles.push_back({"-" + S + v}); singles.push_back({"-" + S, v}); singles.push_back({"-" + S + "=" + v});
      if (!A.empty()) { singles.push_back({"--" + A + "=" + v}); singles.push_back({"--" + A, v}); }
    }
  vector<strs> tails{{}, {"rest"}, {"--yes"}, {"--num", "3"}, {"-y-"}};
  vector<strs> heads{{"go"}, {"--num=2", "go"}, {"go", "--name", "first"}};
  sp.push_back({"single", singles.size() * tails.size() * heads.size(),
                [=](uint64_t i, seq::Ctx &x) { seq::Digits d(i); auto a = heads[d.take(heads.size())]; auto &s = singles[d.take(singles.size())]; auto &e = tails[d.take(tails.size())]; a.insert(a.end(), s.begin(), s.end()); a.insert(a.end(), e.begin(), e.end()); standard(x, *t, a); },
                [=](uint64_t i) { seq::Digits d(i); auto a = heads[d.take(heads.size())]; auto &s = singles[d.take(singles.size())]; auto &e = tails[d.take(tails.size())]; a.insert(a.end(), s.begin(), s.end()); a.insert(a.end(), e.begin(), e.end()); return cmdline(a); }});
  // sequences of spellings and loose values
  strs mix{"--num=1", "--num", "-n2", "-n", "--number", "3", "-4", "--name=a", "--name", "-m", "-mb", "word", "--yes", "-y-", "-y", "--on-", "-x-", "-x+", "-port"};
  strs mix2{"--num=1", "--num", "-n", "3", "-4", "--name", "-mb", "word", "-y-", "-on", "-p", "--port=5", "go", "-yn6", "-yn"};
  around("sequences", {"go"}, {mix, 0, T ? 4u : 3u}, {});
  around("sequences-any-place", {}, {mix2, 0, T ? 4u : 3u}, {});
  around("sequences-before-end", {"go"}, {mix2, 1, T ? 3u : 2u}, {"end", "--ratio", "2.5"});
  // booleans
  strs bools{"--yes", "--yes+", "--yes-", "--sure", "--sure-", "-y", "-y+", "-y-", "--on", "--on-", "-x", "-x-", "-x+", "-yx", "-y-x-", "-xy-", "-z", "-z-y+x-", "word"};
  around("booleans", {"go"}, {bools, 0, T ? 4u : 3u}, {});
  // tight combinations
  t = std::make_shared<C>(tight());
  strs letters{"r", "3", "a", "p", "1", "z", "q", "-", "+", "=", "t", "f", "."};
  unsigned hi = T ? 5 : 4;
  uint64_t n = seq::words_count(letters.size(), 1, hi);
  auto t2 = t;
  auto word = [=](uint64_t i) { string s = "-"; for (int d: seq::word_at(i, letters.size(), 1, hi)) s += letters[(size_t) d]; return s; };
  sp.push_back({"tight", n, [=](uint64_t i, seq::Ctx &x) { standard(x, *t2, {"go", word(i), "9"}); }, [=](uint64_t i) { return cmdline({"go", word(i), "9"}); }});
  sp.push_back({"documented", 1, [=](uint64_t, seq::Ctx &x) { standard(x, *t2, {"go", "-r3ap1zq"}); }, [](uint64_t) { return "go -r3ap1zq"; }});
  return seq::run(argc, argv, "C02", sp, "every sequence of spellings, values and loose words; every flag's value, type, hit count, the remaining arguments, the action and its result compared with the model");
}
