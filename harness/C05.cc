// C05 toggle groups: every sequence of hits on the members of several groups
// KIND: fast
#include "cli.hh"
using namespace cli;
static C tree(int defaults) {
  auto on = [&](int bit) { return (defaults >> bit & 1) ? "true" : "false"; };
  C t;
  t << f("red", "r").of('b', on(0)).toggle("color") << f("green", "g").of('b', on(1)).toggle("color") << f("blue", "b").al("azure").of('b', on(2)).toggle("color");
  t << f("color-depth", "e").of('i', "8") << f("loud", "l").toggle("sound") << f("mute", "m").toggle("sound");
  t << (c("paint", "p") << f("red", "R").toggle("color") << f("white", "w").of('b', on(3)).toggle("color") << f("matt", "t").toggle("finish") << f("gloss", "o").of('b', "true").toggle("finish") << f("solo", "s").toggle("alone")
                       << (c("brush", "B") << f("thin", "n").toggle("color").al("fine").al("slim").al("lean") << f("thick", "K").toggle("color").al("fat").al("bold").al("wide") << (c("fan") << f("wet", "W").toggle("color") << f("dry", "D").toggle("color"))));
  t << (c("plot", "q") << f("black", "k").toggle("color"));
  return t;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  strs hits{"--red", "-g", "--azure", "-gb", "--blue+", "-l", "--mute", "-w", "--white", "-R", "-to", "--gloss", "--matt", "-s", "-e3", "--color-depth=4"};
  for (int d: {0, 2, 5, 9}) {
    auto t = std::make_shared<C>(tree(d));
    Words w{hits, 0, T ? 4u : d == 0 ? 3u : 2u};
    sp.push_back({"paint-" + to_string(d), w.size(), [=](uint64_t i, seq::Ctx &x) { auto a = w.at(i); a.insert(a.begin(), "paint"); standard(x, *t, a); }, [=](uint64_t i) { auto a = w.at(i); a.insert(a.begin(), "paint"); return cmdline(a); }});
  }
  strs small{"--red", "-g", "-b", "-l", "-m", "-w", "-R", "-k", "paint", "plot"};
  auto t = std::make_shared<C>(tree(2));
  Words w{small, 0, T ? 6u : 4u};
  sp.push_back({"any-place", w.size(), [=](uint64_t i, seq::Ctx &x) { standard(x, *t, w.at(i)); }, [=](uint64_t i) { return cmdline(w.at(i)); }});
  strs far{"--thin", "--slim", "--lean", "-K", "--bold", "--wide", "-g", "-w", "fan", "-W", "--dry"};
  Words wf{far, 0, T ? 5u : 3u};
  auto fl = [=](uint64_t i) { auto a = wf.at(i); a.insert(a.begin(), {"paint", "brush"}); return a; };
  sp.push_back({"below", wf.size(), [=](uint64_t i, seq::Ctx &x) { standard(x, *t, fl(i)); }, [=](uint64_t i) { return cmdline(fl(i)); }});
  // all defaults before any hit
  sp.push_back({"defaults", 16, [=](uint64_t i, seq::Ctx &x) { auto q = tree((int) i); standard(x, q, {"paint"}); standard(x, q, {"plot", "-k"}); standard(x, q, {}); }, [=](uint64_t i) { return "defaults " + to_string(i); }});
  return seq::run(argc, argv, "C05", sp, "every sequence of hits on members of four toggle groups on three commands (two groups share a name), all default settings; members' values, the groups' entries and hit counts compared with the model");
}
