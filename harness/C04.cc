// C04 unknown input: valid lines with one or two unknown elements at every position, strict and tolerant, and feel-like mode
// KIND: fast
#include "cli.hh"
using namespace cli;
static C tree() {
  C t;
  t << f("zoom", "z") << f("level", "l").of('i', "1") << f("rootname", "").of('s', "r");
  t << (c("server", "s").al("service") << f("listen", "i") << (c("start", "st").al("launch") << f("foreground", "F")) << c("status", "") << c("restart", "rs"));
  t << (c("client", "") << f("remote-host", "H").of('s', "h"));
  return t;
}
static strs const strange{"bogus", "servre", "srever", "clinet", "statr", "start", "restrat", "--bogus", "--zoomm", "--listne", "--foregruond", "--remote-hsot=x", "-Q", "-zQ", "-Qz", "-l5Q", "--level=x", "--rootnmae", "/Q", "client", ".bogus", "@x", "servers.start"};
static strs const fine{"server", "s", "st", "status", "client", "-z", "--listen", "-F", "-l4", "--level=2", "word"};
static void suggestions(seq::Ctx &x, App &r, Model &m, string const &line) {
  if (m.end != Model::Aborted || m.offending.empty()) return;
  auto shown = [&](string const &n) { return r.err.find("\"" + n + "\"?") != string::npos || r.err.find("\"" + n + "\" [") != string::npos; };
  // the heading is printed with suggestions only, and before them
  auto head = r.err.find("Did you mean"), first = std::min(r.err.find("\"?\n"), r.err.find(")?\n"));
  for (auto const *pat: {"\n   - \"", "\" [0", "\" [1"}) first = std::min(first, r.err.find(pat));
  x.check("heading", line + ": heading and suggestions: " + r.err, (head == string::npos) == (first == string::npos) && (head == string::npos || head < first));
  if (m.offence == 'c')
    for (auto &s: m.sel->subs) {
      strs names = s.d->A;
      names.push_back(s.d->L);
      if (!s.d->S.empty()) names.push_back(s.d->S);
      for (auto const &n: names) {
        double j = jaro(m.offending, n);
        if (j >= 0.9) x.check("not-suggested", line + ": " + n + " is similar to " + m.offending + " but not suggested: " + r.err, shown(n));
        if (j <= 0.6) x.check("wrongly-suggested", line + ": " + n + " is suggested for " + m.offending, !shown(n));
      }
    }
  if (m.offence == 'l')
    for (Node *n = m.sel; n; n = n->up)
      for (auto &y: n->flags) {
        string nm = y.d->L, off = m.offending.substr(2);
        double j = std::min(jaro(m.offending, nm), jaro(off, nm));
        if (j >= 0.88) x.check("not-suggested", line + ": --" + nm + " is similar to " + m.offending + " but not suggested: " + r.err, shown("--" + nm));
        if (std::max(jaro(m.offending, nm), jaro(off, nm)) <= 0.5) x.check("wrongly-suggested", line + ": --" + nm + " is suggested for " + m.offending, !shown("--" + nm));
      }
}
static C deep_tree() {
  C t;
  t << f("zoom", "z");
  t << (c("aa", "a") << f("a-flag", "x")
        << (c("bb", "b") << f("b-flag", "y").of('i', "1")
            << (c("cc", "c") << f("c-flag", "w")
                << (c("dd", "d") << f("d-flag", "u").of('s', "q") << c("ee", "e") << c("eel", ""))
                << c("dim", ""))
            << c("cue", "")));
  return t;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto t = std::make_shared<C>(tree());
  auto deep = std::make_shared<C>(deep_tree());
  auto one = [=](seq::Ctx &x, strs const &a, int mode, bool deeply = false) {
    standard(x, deeply ? *deep : *t, a, [=](App &r, Model &m) {
      m.cmd_error = !(mode & 1); m.flag_error = !(mode & 2);
      r.app->treat_unknown_input_command_as_error(m.cmd_error).treat_unknown_input_flag_as_error(m.flag_error);
    }, [&](App &r, Model &m) { suggestions(x, r, m, cmdline(a)); });
  };
  // one strange element inserted anywhere into every line of fine ones; mode: 0 strict, 1 tolerant commands, 2 tolerant flags, 3 both
  auto inserted = [&](string name, strs words, unsigned len) {
    Words w{words, 0, len};
    uint64_t n = w.size() * (len + 1) * strange.size();
    auto line = [=](uint64_t i) { seq::Digits d(i); auto e = strange[d.take(strange.size())]; auto p = d.take(len + 1); auto a = w.at(d.v); if (p > a.size()) return strs{}; a.insert(a.begin() + (long) p, e); return a; };
    for (int mode = 0; mode < 4; mode++)
      sp.push_back({name + "stcb"[mode], n, [=](uint64_t i, seq::Ctx &x) { auto a = line(i); if (!a.empty()) one(x, a, mode); }, [=](uint64_t i) { return cmdline(line(i)); }});
  };
  inserted("inserted-", fine, T ? 4 : 2);
  inserted("inserted-deep-", {"server", "st", "client", "-z", "--level=2"}, T ? 5 : 3);
  // far below the root: one or two strange elements at every position of every path of the tree
  {
    vector<strs> paths;
    for (strs full: {strs{"aa", "bb", "cc", "dd", "ee"}, strs{"a", "b", "c", "d", "eel"}, strs{"aa", "b", "cue"}, strs{"a", "bb", "c", "dim"}})
      for (size_t k = 1; k <= full.size(); k++) paths.push_back(strs(full.begin(), full.begin() + (long) k));
    strs odd{"bogus", "ddd", "aa", "ee", "--d-falg", "-Q", "--b-flag=x", "-xQ", "-z", "word"};
    uint64_t n = paths.size() * 7 * odd.size() * (odd.size() + 1) * (T ? 7 : 1);
    auto line = [=](uint64_t i) {
      seq::Digits d(i);
      auto a = paths[d.take(paths.size())];
      auto p = d.take(7); auto e = odd[d.take(odd.size())]; auto e2 = d.take(odd.size() + 1); auto q = T ? d.take(7) : a.size() + 1;
      if (p > a.size() || q > a.size() + 1 || (!e2 && q)) { if (!(T == false && p <= a.size())) return strs{}; }
      a.insert(a.begin() + (long) p, e);
      if (e2) a.insert(a.begin() + (long) std::min<size_t>(q, a.size()), odd[e2 - 1]);
      return a;
    };
    for (int mode = 0; mode < 4; mode++)
      sp.push_back({string("far-below-") + "stcb"[mode], n, [=](uint64_t i, seq::Ctx &x) { auto a = line(i); if (!a.empty()) one(x, a, mode, true); }, [=](uint64_t i) { return cmdline(line(i)); }});
  }
  // only strange elements
  Words s{strange, 1, T ? 3u : 2u};
  for (int mode = 0; mode < 4; mode++)
    sp.push_back({string("strange-") + "stcb"[mode], s.size(), [=](uint64_t i, seq::Ctx &x) { one(x, s.at(i), mode); }, [=](uint64_t i) { return cmdline(s.at(i)); }});
  // feel-like mode: the most similar command stands in
  strs alike{"servre", "sevrer", "clinet", "statr", "statsu", "laucnh", "bogus", "server", "restrat", "word", "-z", "--bogus"};
  Words fw{alike, 1, T ? 4u : 3u};
  for (int how = 0; how < 2; how++)
    sp.push_back({how ? "feel-like-mode" : "feel-like-flag", fw.size(), [=](uint64_t i, seq::Ctx &x) {
                    auto a = fw.at(i);
                    if (!how) a.insert(a.begin(), "--feel-like");


                    standard(x, *t, a, [=](App &q, Model &m) {
                      if (how) { q.app->enable_feel_like_mode(); m.feel = true; m.flag(m.root, "app.cli.feel-like")->val = "b:true"; }
                    });
                  }, [=](uint64_t i) { return cmdline(fw.at(i)); }});
  return seq::run(argc, argv, "C04", sp, "every valid line with one unknown element at every position, and lines of unknown elements, strict or tolerating unknown commands/flags; no action after an error, message names the element, suggestions are the similar names");
}
