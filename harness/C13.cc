// C13 colours can be switched off everywhere; the debug report lists exactly what was hit
// KIND: fast
#include "cli.hh"
using namespace cli;
using cmdr::terminal::colors::colorize;
static string plain(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\033') { r += s[i]; continue; }
    if (i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !(s[i] >= '@' && s[i] <= '~')) i++; }
  }
  return r;
}
static vector<string> lines_of(string const &s) { vector<string> r; std::istringstream is(s); string l; while (getline(is, l)) r.push_back(l); return r; }
// the text without what the switch itself changes
static string rest(string const &s) {
  string r;
  bool skip = false;
  for (auto const &l : lines_of(s)) {
    if (skip && plain(l).rfind("                    ", 0) == 0) continue; // continued
    skip = l.find("no-color") != string::npos || l.find("cmdline") != string::npos;
    if (!skip) r += l + "\n";
  }
  return r;
}
static void prepare() {
  builtins();
  colorize::set_default_colorful(true);
  cmdr::vars::store::_c.enable(true);
}
static C fixed_tree() {
  C t;
  t << f("alpha", "a").about("about alpha").ev("V_ALPHA") << f("count", "n").of('i', "1").about("how many").group("1.numbers").ev("V_COUNT").ev("V_COUNT2") << f("text", "t").of('s', "x").al("txt");
  t << (c("server", "s").about("the server") << f("listen", "i").of('i', "80").about("where") << (c("start", "st").about("starts it") << f("fore", "f")) << c("stop", "").about("stops it"));
  t << c("run", "r").group("2.others").about("runs with a rather long description which does not fit into one line of a terminal that has one hundred columns");
  return t;
}
enum { FrontLong, FrontShort, BackLong, Middle, Plain, NoColor, On, OffOn, nmodes };
static strs with(strs a, int mode) {
  switch (mode) {
    case FrontLong: a.insert(a.begin(), "--no-color"); break;
    case FrontShort: a.insert(a.begin(), "-nc"); break;
    case BackLong: a.push_back("--no-color"); break;
    case Middle: a.insert(a.begin() + (long) (a.size() / 2), "--no-color+"); break;
    case On: a.insert(a.begin(), "--no-color-"); break;
    case OffOn: a.insert(a.begin(), "--no-color"); a.push_back("--no-color-"); break;
  }
  return a;
}
static void colours(seq::Ctx &x, C const &t, strs const &a, int mode) {
  if (std::find(a.begin(), a.end(), "--") != a.end() && mode == BackLong) return;
  prepare();
  bool stops = false; // the model tells if the line stops with a message before its end
  {
    Model m(t);
    auto b = a;
    for (auto &w : b) if (w.rfind("~~", 0) == 0) w = "--" + w.substr(2);
    m.run(b);
    stops = m.end == Model::Aborted || !m.bad_values.empty();
    if (m.ambiguous) return;
  }
  if (stops && (mode == BackLong || mode == Middle || mode == OffOn)) return; // the message may come before the switch
  string o[2], e[2], rs[2];
  size_t invs[2];
  for (int off = 0; off < 2; off++) {
    App r;
    r.define(t);
    r.action = [](string const &, strs const &) { return 5; };
    if (off && mode == Plain) r.env["PLAIN"] = "1";
    if (off && mode == NoColor) r.env["NO_COLOR"] = "1";
    r.run(off ? with(a, mode) : a);
    x.step(a.size());
    o[off] = r.out, e[off] = r.err, rs[off] = r.thrown.empty() ? to_string(r.rc) : r.thrown, invs[off] = r.invs.size();
  }
  string line = (mode == Plain ? "PLAIN=1 " : mode == NoColor ? "NO_COLOR=1 " : "") + cmdline(with(a, mode));
  x.outcome(line);
  x.state(seq::fnv(rest(plain(o[0])) + to_string(mode)));
  bool colourful = o[0].find('\033') != string::npos || e[0].find('\033') != string::npos;
  if (colourful) x.interesting();
  if (mode == On || mode == OffOn) {
    x.eq("kept", line, rest(o[0]), rest(o[1]));
    x.eq("kept", line, rest(e[0]), rest(e[1]));
  } else {
    x.check("escape", line + ": an escape sequence in the output: " + o[1].substr(std::min(o[1].size(), o[1].find('\033'))).substr(0, 60), o[1].find('\033') == string::npos);
    x.check("escape", line + ": an escape sequence in the messages: " + e[1].substr(std::min(e[1].size(), e[1].find('\033'))).substr(0, 60), e[1].find('\033') == string::npos);
    x.eq("text", line, rest(plain(o[0])), rest(o[1]));
    x.eq("text", line, rest(plain(e[0])), rest(e[1]));
  }
  x.eq("result", line, rs[0], rs[1]);
  x.check("action", line + ": different actions", invs[0] == invs[1]);
  // a later application of the same process has its colours again
  App r;
  r.define(t);
  r.run({"--help"});
  x.check("later", line + ": the next application prints without colours", r.out.find('\033') != string::npos);
  App q;
  q.define(t);
  q.run({"run", "~~debug"});
  x.check("later", line + ": the debug report of the next application has no colours", q.out.find('\033') != string::npos);
}
static string value(string const &v) { return v.substr(0, 2) == "s:" ? "\"" + v.substr(2) + "\"" : v.substr(2); }
static void report(seq::Ctx &x, C const &t, strs const &a, std::map<string, string> const &env) {
  prepare();
  App r;
  Model m(t);
  r.define(t);
  r.env = m.env = env;
  r.action = m.action = [](string const &, strs const &) { return 5; };
  auto b = a;
  for (auto &w : b) if (w.rfind("~~", 0) == 0) w = "--" + w.substr(2);
  m.run(b);
  r.run(a);
  x.step(a.size());
  string line = cmdline(a);
  for (auto &e : env) line = e.first + "=" + e.second + " " + line;
  x.outcome(line);
  if (m.ambiguous || m.felt || !m.bad_values.empty() || m.end == Model::Aborted) return;
  std::map<string, std::pair<bool, bool>> marks; // special, long
  bool requested = false;
  for (auto &e : m.events) {
    if (e.kind != 'f') continue;
    bool sp = a[e.arg].rfind("~~", 0) == 0, lg = sp || a[e.arg].rfind("--", 0) == 0;
    auto &k = marks[e.key];
    k.first |= sp;
    k.second |= lg;
    string n = e.key.substr(8);
    if (n == "debug" && k.first) requested = true;
    else if (n == "help" || n == "version" || n == "tree" || n == "build-info") return; // C11
  }
  if (m.flag(m.root, "app.cli.help")->hits) return;
  auto ls = lines_of(plain(r.out));
  vector<string> got, want;
  for (auto &l : ls) if (l.rfind(" - ", 0) == 0 && l.find(" hits: ") != string::npos) got.push_back(l);
  if (!requested) {
    x.check("unrequested", line + ": a report nobody asked for: " + r.out, got.empty() && r.out.find("Dumping") == string::npos);
    return;
  }
  x.interesting();
  vector<string> keys;
  std::function<void(Node &)> walk = [&](Node &n) {
    for (auto &y : n.flags) {
      keys.push_back(" - " + y.key + " : " + value(y.val));
      if (!y.hits) continue;
      bool fromenv = false;
      for (auto &e : y.d->env) fromenv |= env.count(e) > 0;
      string title = "--" + y.d->L + (y.d->S.empty() ? "" : ", -" + y.d->S);
      for (auto &al : y.d->A) title += ", --" + al;
      auto k = marks[y.key];
      want.push_back(" - " + to_string(y.hits) + " hits: \"" + title + "\" (hit title: \"" + y.title + "\", spec:" + to_string(k.first) + ", long:" + to_string(k.second || fromenv) + ", env:" + to_string(fromenv) + "): '" + y.key + "' => " + value(y.val));
    }
    for (auto &s : n.subs) walk(s);
  };
  walk(m.root);
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  string w, g;
  for (auto &l : want) w += "\n  " + l;
  for (auto &l : got) g += "\n  " + l;
  x.state(seq::fnv(w));
  x.eq("hits", line, w, g);
  x.check("action", line + ": an action ran", r.invs.empty());
  x.eq("result", line, "0", r.thrown.empty() ? to_string(r.rc) : r.thrown);
  x.check("noise", line + ": on the error stream: " + r.err, r.err.empty());
  x.check("command", line + ": the report does not name the command: " + r.out, r.out.find("command \"" + (m.sel == &m.root ? string() : m.sel->d->L + (m.sel->d->S.empty() ? "" : ", " + m.sel->d->S))) != string::npos);
  int hits = m.flag(m.root, "app.cli.debug")->hits;
  bool cli = m.flag(m.root, "app.cli.cli")->val == "b:true", dump = hits > 1, tree = hits > 2;
  vector<string> dumped;
  bool in = false;
  int nd = 0;
  for (auto &l : ls) {
    if (l.rfind("Dumping", 0) == 0) { in = nd++ == 0; continue; }
    if (l.rfind("command \"", 0) == 0) in = false;
    if (in) dumped.push_back(l);
  }
  x.check("dumps", line + ": " + to_string(nd) + " dumps after " + to_string(hits) + " requests", nd == dump + tree);
  if (!dump) return;
  if (!cli) keys.clear();
  std::sort(keys.begin(), keys.end());
  std::sort(dumped.begin(), dumped.end());
  w.clear(), g.clear();
  for (auto &l : keys) w += "\n  " + l;
  for (auto &l : dumped) g += "\n  " + l;
  x.eq("dump", line, w, g);
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto t = std::make_shared<C>(fixed_tree());
  Words w{{"server", "start", "run", "~~debug", "~~tree", "--cli", "-h", "--version", "-#", "-a", "-n5", "-nbad", "--unknown", "nothing", "--text="}, 0, T ? 4u : 3u};
  sp.push_back({"switches", w.size() * nmodes, [=](uint64_t i, seq::Ctx &x) { colours(x, *t, w.at(i / nmodes), (int) (i % nmodes)); }, [=](uint64_t i) { return cmdline(with(w.at(i / nmodes), (int) (i % nmodes))); }});
  Words d{{"~~debug", "~~debug", "~~debug", "--cli", "server", "-h"}, 3, T ? 6u : 4u}; // several dumps
  sp.push_back({"dumps", d.size() * 4, [=](uint64_t i, seq::Ctx &x) { colours(x, *t, d.at(i / 4), i % 4 == 3 ? Plain : (int) (i % 4)); }, [=](uint64_t i) { return cmdline(d.at(i / 4)); }});
  std::map<string, string> none, one{{"V_ALPHA", "true"}}, two{{"V_COUNT", "7"}, {"V_COUNT2", "8"}}, dbg{{"DEBUG", "true"}, {"V_ALPHA", "true"}};
  vector<std::map<string, string>> envs{none, one, two, dbg};
  auto rep = [&](string name, strs alpha, unsigned lo, unsigned hi) {
    Words q{alpha, lo, hi};
    auto n = envs.size();
    auto es = envs;
    sp.push_back({name, q.size() * n, [=](uint64_t i, seq::Ctx &x) { report(x, *t, q.at(i / n), es[i % n]); }, [=](uint64_t i) { return cmdline(q.at(i / n)) + " #" + to_string(i % n); }});
  };
  rep("report", {"server", "start", "run", "~~debug", "-a", "--alpha-", "-n5", "--count", "6", "--txt=u v", "-i81", "word"}, 1, T ? 5 : 3);
  rep("debug", {"server", "stop", "~~debug", "--debug", "-D", "~~debug-mode", "--cli", "~~cli", "-an2", "-vv", "--verbose"}, 1, T ? 5 : 3);
  return seq::run(argc, argv, "C13", sp, "every request and message with the colours on and switched off in every way, compared character by character; the debug report on all lines over an alphabet with every kind of hit");
}
