// C03 flag matching and hit counting: names that are prefixes of one another, on several levels
// KIND: fast
#include "cli.hh"
using namespace cli;
static C shorts() {
  C t;
  t << f("alpha", "a").al("al") << f("alphabet", "ab") << f("bee", "b") << f("abc", "abc").of('i', "1") << f("count", "c").of('i', "2");
  t << (c("go") << f("beer", "b").al("be") << f("alp", "abcd") << f("delta", "d") << f("alphas", "as"));
  t << (c("deep") << f("bee", "ba") << (c("er") << f("alpha", "c") << f("cc", "cc") << f("d", "d") << f("bees", "aa") << (c("est") << f("one", "o").al("uno").al("eins").al("ein") << (c("most") << f("bee", "e") << f("own", "oo").al("propre").al("prop")))));
  return t;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto t = std::make_shared<C>(shorts());
  auto letters = [&](string name, string dash, strs alpha, unsigned hi, vector<strs> pres, bool longest, strs post) {
    uint64_t n = seq::words_count(alpha.size(), 1, hi), k = pres.size();
    auto line = [=](uint64_t i) {
      strs a = pres[i % k];
      string w = dash;
      for (int d: seq::word_at(i / k, alpha.size(), 1, hi)) w += alpha[(size_t) d];
      a.push_back(w);
      a.insert(a.end(), post.begin(), post.end());
      return a;
    };
    auto set = [=](App &r, Model &m) { r.app->set_match_longest_first(longest); m.longest = longest; };
    sp.push_back({name, n * k, [=](uint64_t i, seq::Ctx &x) { standard(x, *t, line(i), set); }, [=](uint64_t i) { return cmdline(line(i)); }});
  };
  vector<strs> places{{"go"}, {"deep", "er"}, {}};
  letters("short-words", "-", {"a", "b", "c", "d", "s", "1"}, T ? 6 : 4, places, true, {});
  letters("short-words-shortest-first", "-", {"a", "b", "c", "d", "s", "1"}, T ? 5 : 4, places, false, {});
  letters("slash-words", "/", {"a", "b", "c", "d"}, T ? 5 : 4, places, true, {"x"});
  vector<strs> far{{"deep", "er", "est", "most"}, {"deep", "er", "est"}};
  letters("short-words-far-below", "-", {"a", "b", "c", "e", "o", "+"}, T ? 6 : 4, far, true, {});
  letters("long-words-far-below", "--", {"one", "o", "bee", "s", "prop", "re", "-"}, T ? 5 : 4, far, true, {});
  letters("long-words", "--", {"al", "pha", "alpha", "bet", "be", "e", "r", "s", "-"}, T ? 5 : 4, places, true, {});
  letters("long-words-shortest-first", "--", {"al", "pha", "alpha", "bet", "be", "e", "r", "s", "-"}, T ? 4 : 3, places, false, {});
  // sequences of flag arguments around the command words
  strs seqs{"--alpha", "--alphabet", "--alp", "-a", "-ab", "-abc5", "-abcd", "-b", "--bee", "--beer", "--bees", "-c", "3", "go", "deep", "er", "-aa", "-cc", "-d"};
  sp.push_back(space("sequences", shorts(), {seqs, 0, T ? 4u : 3u}));
  strs same{"-a", "--alpha", "--al", "-aa", "-b", "-ba", "--bee"};
  auto w = Words{same, 1, T ? 6u : 4u};
  sp.push_back({"repeats", w.size() * 3, [=](uint64_t i, seq::Ctx &x) { auto a = places[i % 3]; auto b = w.at(i / 3); a.insert(a.end(), b.begin(), b.end()); standard(x, *t, a); },
                [=](uint64_t i) { auto a = places[i % 3]; auto b = w.at(i / 3); a.insert(a.end(), b.begin(), b.end()); return cmdline(a); }});
  // several aliases, four levels of commands
  strs deep{"--one", "-o", "--uno", "--eins", "--ein", "-oo", "--propre", "--prop", "-e", "--bee", "-c", "-a", "--bees", "--alpha"};
  auto dw = Words{deep, 0, T ? 4u : 3u};
  vector<strs> below{{"deep", "er", "est", "most"}, {"deep", "er", "est"}};
  auto dl = [=](uint64_t i) { auto a = below[i % 2]; auto b = dw.at(i / 2); a.insert(a.end(), b.begin(), b.end()); return a; };
  sp.push_back({"four-levels", dw.size() * 2, [=](uint64_t i, seq::Ctx &x) { standard(x, *t, dl(i)); }, [=](uint64_t i) { return cmdline(dl(i)); }});
  return seq::run(argc, argv, "C03", sp, "every flag argument over the letters, on three levels, and every sequence of flag arguments; hit count, hit title and value of every flag compared with the model");
}
