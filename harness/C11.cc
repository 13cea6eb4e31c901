// C11 help and information screens: requests in every spelling at every position; which items the screen shows
// KIND: fast
#include "cli.hh"
#include <sys/ioctl.h>
#include <fcntl.h>
using namespace cli;
// the text without escape sequences
static string plain(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\033') { r += s[i]; continue; }
    if (i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !(s[i] >= '@' && s[i] <= '~')) i++; }
  }
  return r;
}
static vector<string> lines_of(string const &s) { vector<string> r; std::istringstream is(s); string l; while (getline(is, l)) r.push_back(l); return r; }
// section -> titles shown in it, in order
using Screen = std::map<string, vector<string>>;
static Screen parse(string const &out) {
  Screen s;
  string sec;
  for (auto const &l : lines_of(plain(out))) {
    if (l.empty() || l[0] != ' ') {
      sec = l == "Commands" || l == "Options" || l == "Global Options" || l.rfind("Parent Options of ", 0) == 0 ? l.substr(0, l.find(',')) : "";
      if (!sec.empty() && sec.back() == '"') sec.pop_back();
      if (!sec.empty()) { if (s.count(sec)) s[sec].push_back("(section twice)"); else s[sec]; }
      continue;
    }
    if (sec.empty() || l.size() < 3 || l[1] != ' ' || l[2] == ' ' || l[2] == '(' || l[2] == '[') continue;
    string t = l.substr(2);
    s[sec].push_back(t.substr(0, t.find_first_of(", =")));
  }
  for (auto &x : s) std::sort(x.second.begin(), x.second.end());
  return s;
}
static Screen wanted(Node *sel, bool hidden) {
  Screen s;
  auto &c = s["Commands"];
  for (auto &x : sel->subs) if (hidden || !x.d->hid) c.push_back(x.d->L);
  for (Node *n = sel; n; n = n->up) {
    auto &f  = s[n == sel ? string("Options") : n->up ? "Parent Options of \"" + n->d->L : string("Global Options")];
    for (auto &x : n->flags) if (hidden || !x.d->hid) f.push_back("--" + x.d->L);
  }
  for (auto &x : s) std::sort(x.second.begin(), x.second.end());
  return s;
}
// every name and the description of an item, on the lines that belong to it
static void details(seq::Ctx &x, string const &line, string const &out, Node *sel, bool hidden) {
  string sec;
  auto ls = lines_of(plain(out));
  auto item = [&](string const &section, string const &lead, string const &L, string const &S, strs const &A, string const &desc) {
    string sc;
    for (size_t i = 0; i < ls.size(); i++) {
      auto const &l = ls[i];
      if (l.empty() || l[0] != ' ') { sc = l; continue; }
      if (sc != section || l.size() < 3 || l[2] == ' ') continue;
      string t = l.substr(2);
      if (t.substr(0, t.find_first_of(", =")) != lead + L) continue;
      string whole = l;
      for (size_t k = i + 1; k < ls.size() && ls[k].rfind("                    ", 0) == 0; k++) whole += ls[k];
      string squeezed;
      for (char ch : whole) if (ch != ' ') squeezed += ch;
      auto has = [&](string w) { string q; for (char ch : w) if (ch != ' ') q += ch; return squeezed.find(q) != string::npos; };
      string want = lead + L;
      if (!S.empty()) x.check("names", line + ": the short title of " + L + " is not shown: " + whole, has(want + "," + (lead.empty() ? "" : "-") + S) || squeezed.find("," + string(lead.empty() ? "" : "-") + S) != string::npos);
      for (auto const &a : A) x.check("names", line + ": the alias " + a + " of " + L + " is not shown: " + whole, has("," + lead + a));
      if (!desc.empty()) x.check("description", line + ": the description of " + L + " is not shown: " + whole, has(desc));
      return;
    }
  };
  for (auto &s : sel->subs) if (hidden || !s.d->hid) item("Commands", "", s.d->L, s.d->S, s.d->A, s.d->desc);
  for (auto &y : sel->flags) if (hidden || !y.d->hid) item("Options", "--", y.d->L, y.d->S, y.d->A, y.d->desc);
}
static void screen(seq::Ctx &x, string const &line, string const &out, Model &m, Node *sel, bool hidden, bool det = true) {
  auto got = parse(out), want = wanted(sel, hidden);
  string where = line + " (help of '" + sel->path + "'" + (hidden ? ", with hidden items" : "") + ")";
  for (auto &w : want) {
    if (!got.count(w.first)) { x.fail("section", where + ": no section " + w.first + " in: " + plain(out)); continue; }
    string a = show(w.second), b = show(got[w.first]);
    x.check("items", where + ": " + w.first + ": expected " + a + ", got " + b, a == b);
  }
  for (auto &g : got) if (!want.count(g.first)) x.fail("section", where + ": unexpected section " + g.first);
  if (det) details(x, where, out, sel, hidden);
}
static void tree_of(Node *n, bool hidden, int depth, vector<string> &v) {
  for (auto &s : n->subs) if (hidden || !s.d->hid) { v.push_back(s.d->L); tree_of(&s, hidden, depth + 1, v); }
}
static void one(seq::Ctx &x, C const &t, strs const &a, std::map<string, string> const &env = {}) {
  builtins();
  App r;
  Model m(t);
  r.define(t);
  r.env = m.env = env;
  r.action = m.action = [](string const &, strs const &) { return 7; };
  m.run(a);
  r.run(a);
  x.step(a.size());
  string line = cmdline(a);
  for (auto &e : env) line = e.first + "=" + e.second + " " + line;
  x.outcome(line);
  if (m.ambiguous || m.end == Model::Aborted || !m.bad_values.empty() || m.felt) return;
  // what is requested
  int help = m.flag(m.root, "app.cli.help")->hits;
  if (m.flag(m.root, "app.cli.help")->val != "b:true") help = 0;
  string last; // the last request on the line
  for (auto &h : m.trace)
    for (auto &n : {"help", "version", "build-info", "tree"})
      if (h.first == string("app.cli.") + n) {
        last = n;
        if (m.flag(m.root, h.first)->val != "b:true") return; // "--help-": a request that is switched off is unspecified
      }
  if (last.empty() && !help && (m.end == Model::Action || m.end == Model::Builtin || m.end == Model::Required)) return; // not about help
  x.interesting();
  string acts;
  for (auto &i : r.invs) acts += i.who + " ";
  x.check("action", line + ": an action ran: " + acts, r.invs.empty());
  x.check("result", line + ": the result is " + (r.thrown.empty() ? to_string(r.rc) : r.thrown) + ", " + r.err, r.thrown.empty() && r.rc == 0);
  x.check("noise", line + ": on the error stream: " + r.err, r.err.empty());
  bool hidden = m.flag(m.root, "app.cli.help")->hits > 2;
  x.state(seq::fnv(last + "|" + m.sel->path + (hidden ? "h" : "") + (help ? "H" : "")));
  if (last == "version") {
    auto sim = m.flag(m.root, "app.cli.version-sim")->val.substr(2);
    x.eq("version", line, sim.empty() ? string("1.2.3\n") : sim + "\n", r.out);
  } else if (last == "build-info") {
    auto ls = lines_of(r.out);
    auto has = [&](string const &w) { return std::find(ls.begin(), ls.end(), w) != ls.end(); };
    x.check("build-info", line + ": name or version missing in: " + r.out, has("t") && has("1.2.3") && r.out.find("Built by ") == 0);
  } else if (last == "tree") {
    vector<string> want, got;
    tree_of(m.sel, hidden, 0, want);
    for (auto const &l : lines_of(plain(r.out))) {
      auto p = l.find_first_not_of(' ');
      if (p == string::npos || l[p] != '*') continue;
      string q = l.substr(p + 2);
      got.push_back(q.substr(0, q.find_first_of(", ")));
    }
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    x.check("tree", line + ": expected " + show(want) + ", got " + show(got), want == got);
  } else {
    if (m.flag(m.root, "app.cli.tree")->hits) return; // both: layout unspecified
    screen(x, line, r.out, m, m.sel, hidden);
  }
}
static C fixed_tree() {
  C t;
  t << f("alpha", "a").about("about alpha") << f("ghost", "G").hidden().about("about ghost") << f("count", "n").of('i', "1").group("1.numbers").about("the number of things");
  t << f("one", "").toggle("choice").about("choice one") << f("two", "").toggle("choice").about("choice two");
  t << (c("server", "s").al("service").about("the server commands") << f("listen", "i").about("the listening") << f("secret", "").hidden().about("not for everyone")
       << (c("start", "st").about("starts it") << f("fore", "f").about("in front")) << c("hid", "").hidden().about("a hidden one") << (c("sub", "").group("9.more").about("deeper") << c("leaf", "").about("a leaf") << f("shy", "").hidden()));
  t << c("client", "c").group("2.others").about("a client with a rather long description which does not fit into one line of a terminal that has one hundred columns, so that it is wrapped");
  t << (c("covert", "").hidden() << c("inner", ""));
  return t;
}
// trees over shapes of items: visible/hidden x ungrouped/grouped/dotted groups/toggle groups
static F flag_kind(int k, string const &n) {
  F y = f(n, "");
  y.about("desc of flag " + n);
  switch (k) {
    case 1: return y.hidden();
    case 2: return y.group("plain");
    case 3: return y.group("1.first");
    case 4: return y.group("1.second");
    case 5: return y.group("2.first");
    case 6: return y.toggle("tg");
    case 7: return y.toggle("tg").group("1.first");
    case 8: return y.group("other").hidden();
    case 9: return y.group("1230.more");
    case 10: return y.toggle("1.tg");
  }
  return y;
}
static C cmd_kind(int k, string const &n) {
  C y = c(n, "");
  y.about("desc of command " + n);
  switch (k) {
    case 1: return y.hidden();
    case 2: return y.group("plain");
    case 3: return y.group("1.first");
    case 4: return y.group("1.second");
    case 5: return y.group("2.first");
    case 6: return y.group("other");
    case 7: y << c("below" + n, ""); return y;
    case 8: return y.group("other").hidden();
    case 9: return y.group("1230.more");
  }
  return y;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto t = std::make_shared<C>(fixed_tree());
  auto lines = [&](string name, strs alpha, unsigned lo, unsigned hi, std::map<string, string> env = {}) {
    Words w{alpha, lo, hi};
    sp.push_back({name, w.size(), [=](uint64_t i, seq::Ctx &x) { one(x, *t, w.at(i), env); }, [=](uint64_t i) { return cmdline(w.at(i)); }});
  };
  lines("positions", {"server", "s", "start", "hid", "sub", "client", "covert", "--help", "-h", "--alpha", "-n3", "word"}, 0, T ? 5 : 4);
  lines("spellings", {"server", "start", "sub", "--help", "-h", "--?", "--info", "--usages", "-hh", "-hhh", "-ah", "-ha", "/h", "--listen"}, 1, T ? 4 : 3);
  lines("information", {"server", "start", "covert", "--version", "-V", "--ver", "--versions", "--build-info", "--bdinfo", "-#", "--tree", "-h", "-aV", "--version-sim=9.8", "-hhh"}, 1, T ? 4 : 3);
  lines("environment", {"server", "start", "sub", "client", "-h", "--alpha", "--version", "--tree"}, 0, T ? 4 : 3, {{"HELP", "1"}});
  lines("after-dashes", {"server", "start", "--", "-h", "word"}, 1, T ? 6 : 5);
  // help screens of trees over kinds of items
  auto kinds = [&](string name, int nk, unsigned n, bool cmds, strs line) {
    uint64_t size = 1;
    for (unsigned i = 0; i < n; i++) size *= (uint64_t) nk;
    auto mk = [=](uint64_t i) {
      seq::Digits d(i);
      C q = c("box", "");
      for (unsigned k = 0; k < n; k++) {
        int kd = (int) d.take((uint64_t) nk);
        string nm = string(1, (char) ('p' + k)) + "item";
        if (cmds) q << cmd_kind(kd, nm); else q << flag_kind(kd, nm);
      }
      if (!cmds) q << c("deep", "");
      C root;
      root << q;
      return root;
    };
    sp.push_back({name, size, [=](uint64_t i, seq::Ctx &x) { one(x, mk(i), line); }, [=](uint64_t i) { return name + " #" + to_string(i); }});
  };
  kinds("flag-groups", 11, T ? 4 : 3, false, {"box", "-h"});
  kinds("flag-groups-of-parent", 11, T ? 3 : 2, false, {"box", "deep", "--help"});
  kinds("command-groups", 10, T ? 4 : 3, true, {"box"});
  kinds("command-tree", 10, T ? 4 : 3, true, {"box", "--tree"});
  kinds("flag-groups-all", 11, 3, false, {"box", "-hhh"});
  kinds("command-groups-all", 10, 3, true, {"box", "-hhh"});
  // the help command
  strs hw{"server", "s", "start", "sub", "leaf", "client", "covert"};
  Words h{hw, 0, T ? 4u : 3u};
  sp.push_back({"help-command", h.size() * 3, [=](uint64_t i, seq::Ctx &x) {
                  auto a = h.at(i / 3);
                  builtins();
                  App r;
                  Model m(*t);
                  r.define(*t);
                  Node *n = &m.root;
                  for (auto &w : a) { if (n) n = m.command(*n, w); }
                  auto b = a;
                  b.insert(b.begin(), strs{"help", "h", "usages"}[i % 3]);
                  r.run(b);
                  x.step(b.size());
                  if (!n) return;
                  x.interesting();
                  x.state(seq::fnv(n->path));
                  x.check("action", cmdline(b) + ": an action ran", r.invs.empty());
                  x.check("result", cmdline(b) + ": result " + to_string(r.rc), r.thrown.empty() && r.rc == 0);
                  screen(x, cmdline(b), r.out, m, n, false);
                }, [=](uint64_t i) { return "help " + cmdline(h.at(i / 3)); }});
  // terminals of every width
  unsigned widths = T ? 260 : 140;
  sp.push_back({"terminal-width", widths * 2, [=](uint64_t i, seq::Ctx &x) {
                  builtins();
                  unsigned w = 1 + (unsigned) (i / 2);
                  int ptm = open("/dev/ptmx", O_RDWR | O_NOCTTY | O_CLOEXEC), zero = 0;
                  if (ptm < 0 || ioctl(ptm, TIOCSPTLCK, &zero)) { x.fail("harness", "no pseudo terminal"); return; }
                  int pts = ioctl(ptm, TIOCGPTPEER, O_RDWR | O_NOCTTY | O_CLOEXEC);
                  struct winsize ws{};
                  ws.ws_row = 24; ws.ws_col = (unsigned short) w;
                  static FILE *null = fopen("/dev/null", "w");
                  fflush(stdout);
                  auto *so = stdout;
                  stdout = null; // nobody reads what the library logs
                  int keep = dup(1);
                  if (pts < 0 || ioctl(pts, TIOCSWINSZ, &ws) || dup2(pts, 1) < 0) { x.fail("harness", "no pseudo terminal"); return; }
                  App r;
                  Model m(*t);
                  r.define(*t);
                  strs a = i % 2 ? strs{"server", "-h"} : strs{"--help"};
                  m.run(a);
                  r.run(a);
                  stdout = so;
                  dup2(keep, 1);
                  close(keep); close(pts); close(ptm);
                  x.step();
                  x.interesting();
                  x.state(w);
                  screen(x, "terminal of width " + to_string(w) + ": " + cmdline(a), r.out, m, m.sel, false, w > 50);
                }, [=](uint64_t i) { return "terminal width " + to_string(1 + i / 2); }});
  // shell completion: every visible item, no hidden one, in both formats
  Words sw{{"server", "sub", "start", "-h"}, 0, 3};
  sp.push_back({"shell-completion", sw.size() * 2, [=](uint64_t i, seq::Ctx &x) {
                  auto a = sw.at(i / 2);
                  builtins();
                  App r;
                  Model m(*t);
                  r.define(*t);
                  a.insert(a.begin(), "--shell-completion");
                  a.push_back("--help");
                  m.run(a);
                  if (m.end == Model::Aborted || m.flag(m.root, "app.cli.help")->hits > 2) return;
                  r.env["SHELL"] = i % 2 ? "/bin/zsh" : "/bin/bash";
                  r.run(a);
                  x.step(a.size());
                  x.interesting();
                  x.check("action", cmdline(a) + ": an action ran", r.invs.empty());
                  std::map<string, int> got;
                  for (auto const &l : lines_of(plain(r.out))) { auto p = l.find_first_not_of(' '); if (p != string::npos) got[l.substr(p, l.find_first_of(",= :[", p) - p)]++; }
                  auto item = [&](string const &n, bool hid, bool dup) {
                    int k = got.count(n) ? got[n] : 0;
                    if (hid) x.check("completion", cmdline(a) + ": hidden " + n + " is listed", k == 0 || dup);
                    else x.check("completion", cmdline(a) + ": " + n + " is listed " + to_string(k) + " times in " + plain(r.out), k == 1);
                  };
                  for (auto &s : m.sel->subs) item(s.d->L, s.d->hid, false);
                  for (Node *n = m.sel; n; n = n->up) for (auto &y : n->flags) item("--" + y.d->L, y.d->hid, false);
                }, [=](uint64_t i) { return "--shell-completion " + cmdline(sw.at(i / 2)); }});
  return seq::run(argc, argv, "C11", sp, "help and information requests in every spelling at every position of lines over a fixed tree; help and tree screens of all trees over kinds of items (hidden, groups, dotted groups, toggle groups); terminals of every width; shell completion");
}
