// C14 the texts of the help screen: complete, in one column, whatever the settings
// KIND: fast
#include "cli.hh"
using namespace cli;
static string plain(string const &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\033') { r += s[i]; continue; }
    if (i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !(s[i] >= '@' && s[i] <= '~')) i++; }
  }
  return r;
}
static strs lines_of(string const &s) { strs r; std::istringstream is(s); string l; while (getline(is, l)) r.push_back(l); return r; }
static string squeeze(string const &s) { string r; for (char ch : s) if (!isspace((unsigned char) ch)) r += ch; return r; }
static string trim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); size_t i = 0; while (i < s.size() && s[i] == ' ') i++; return s.substr(i); }
static string exe() { char b[4096]; auto n = readlink("/proc/self/exe", b, sizeof b); string s(b, (size_t) std::max<ssize_t>(n, 0)); return s.substr(s.rfind('/') + 1); }
// the settings that belong to the process; every case starts from the initial ones
struct Settings {
  bool no_tail = false, no_end = false, right = false;
  int tab = -1;
  void apply(cmdr::app &a) const { a.set_no_tail_line(no_tail).set_no_cmdr_endings(no_end).set_alias_right_align(right).set_minimal_tab_stop(tab); }
};
// the text of one section: from its title line to the next line that starts at the margin
static string part(strs const &ls, string const &title, bool *found = nullptr) {
  string r;
  bool in = false;
  if (found) *found = false;
  for (auto const &l : ls) {
    if (!in) { if (l == title) { in = true; if (found) *found = true; } continue; }
    if (!l.empty() && l[0] != ' ') break;
    r += l + "\n";
  }
  return r;
}
struct Row { string section, text; string name, names, desc; size_t col = 0; };
// the rows of the lists.  Every description in these programs starts with "<": that is how its column is found
static vector<Row> rows(strs const &ls) {
  vector<Row> v;
  string sec;
  for (auto const &l : ls) {
    if (l.empty()) continue;
    if (l[0] != ' ') { sec = l; continue; }
    if (sec != "Commands" && sec != "Options" && sec != "Global Options" && sec.rfind("Parent Options of", 0) != 0) continue;
    if (l[2] == '[' || l[2] == '(') { v.push_back({sec, l, l.substr(2, l.find_first_of("])") - 1), "", "", 0}); continue; }
    if (l[2] == ' ' && !v.empty() && l.find_first_not_of(' ') > 30) { // continued description
      v.back().desc += "\n" + l;
      continue;
    }
    Row r{sec, l, "", "", "", 0};
    size_t p = l.find('<');
    if (p == string::npos) { size_t q = l.find_last_of(' '); (void) q; r.names = trim(l); }
    else { r.col = p; r.names = trim(l.substr(0, p)); r.desc = l.substr(p); }
    string t = l.substr(2);
    r.name = t.substr(0, t.find_first_of(", ="));
    v.push_back(r);
  }
  return v;
}
struct World { C tree; Settings set; string name = "t", version = "1.2.3", author = "hz", copyright = "(c)", about = "about", example = "example", header, tail; std::map<string, string> place, expl; };
static void check(seq::Ctx &x, string const &where, World const &w, strs const &a) {
  builtins();
  App r;
  delete r.app;
  auto z = [](string const &s) { return s == "(null)" ? nullptr : s.c_str(); };
  r.app = &cmdr::app::create_new(w.name.c_str(), w.version.c_str(), z(w.author), z(w.copyright), z(w.about), z(w.example));
  w.set.apply(*r.app);
  if (!w.header.empty()) r.app->header(w.header.c_str());
  if (!w.tail.empty()) r.app->set_tail_line(w.tail);
  r.dress_flag = [&](cmdr::opt::opt &o, string const &k) { auto i = w.place.find(k.substr(k.rfind('.') + 1)); if (i != w.place.end()) o.placeholder(i->second.c_str()); };
  r.dress = [&](cmdr::opt::sub_cmd &o, string const &k) { auto i = w.expl.find(k); if (i != w.expl.end()) o.examples(i->second.c_str()); };
  Model m(w.tree);
  r.define(w.tree);
  m.run(a);
  r.run(a);
  Settings{}.apply(*r.app);
  x.step(a.size());
  if (m.ambiguous) return;
  x.interesting();
  x.outcome(plain(r.out));
  Node *sel = m.sel;
  bool hidden = m.flag(m.root, "app.cli.help")->hits > 2;
  x.state(seq::fnv(sel->path + where));
  auto ls = lines_of(plain(r.out));
  auto bad = [&](string const &sig, string const &what) { x.fail(sig, where + ": " + what + "\n" + plain(r.out)); };
  if (ls.empty()) { bad("nothing", "nothing is printed"); return; }
  auto val = [](string const &s) { return s == "(null)" ? string() : s; };
  string title = w.name + " v" + w.version + (w.header.empty() ? " by " + val(w.author) + ". " + val(w.copyright) : w.header);
  x.eq("title", where, title, ls[0]);
  // the command's own texts
  auto text = [&](string const &t, string const &want, bool there) {
    bool found;
    string got = part(ls, t, &found);
    if (found != there) { bad("own-text", "the section " + t + (there ? " is missing" : " is there")); return; }
    if (!there) return;
    strs g, v;
    for (auto const &l : lines_of(got)) if (!trim(l).empty()) { g.push_back(trim(l)); if (l.substr(0, 2) != "  ") bad("indent", "a line of " + t + " is not indented"); }
    for (auto const &l : lines_of(want)) if (!trim(l).empty()) v.push_back(trim(l));
    x.eq("own-text", where + ": " + t, show(v), show(g));
  };
  string about = sel->up ? sel->d->desc : val(w.about), ex = sel->up ? (w.expl.count(sel->path) ? w.expl.at(sel->path) : "") : val(w.example), full;
  for (char ch : ex) if (ch == '~') full += exe(); else full += ch;
  text("Description", about, !about.empty());
  text("Examples", full, !ex.empty());
  string path;
  for (Node *n = sel; n->up; n = n->up) path = (n->hits ? n->title : n->d->L) + (path.empty() ? "" : " ") + path;
  text("Usage", exe() + " " + path + " [options] [Tail Args]", true);
  // the lists
  auto rs = rows(ls);
  size_t col = 0;
  string first;
  for (auto &q : rs) {
    if (q.desc.empty() || q.col == 0) continue;
    if (!col) { col = q.col; first = q.name; }
    if (q.col != col) bad("column", "the description of " + q.name + " starts in column " + to_string(q.col) + ", that of " + first + " in " + to_string(col));
  }
  if (col && (int) col < std::max(w.set.tab, 43) + 2) bad("tab-stop", "the descriptions start in column " + to_string(col));
  auto find = [&](string const &sec, string const &n) -> Row * { for (auto &q : rs) if (q.section == sec && q.name == n) return &q; return nullptr; };
  auto row = [&](string const &sec, string const &n, string const &names, string const &desc) {
    auto *q = find(sec, n);
    if (!q) { bad("row", "no line for " + n + " in " + sec); return; }
    if (squeeze(q->names) != squeeze(names)) bad("names", n + ": names are '" + q->names + "' instead of '" + names + "'");
    if (squeeze(q->desc) != squeeze(desc)) bad("description", n + ": described as '" + q->desc + "' instead of '" + desc + "'");
    for (auto const &l : lines_of(q->desc)) if (&l != nullptr && l.size() > 2 && l[0] == ' ' && l.find_first_not_of(' ') != col) bad("wrapped", n + ": a wrapped line starts in column " + to_string(l.find_first_not_of(' ')) + ", not " + to_string(col));
  };
  for (auto &s : sel->subs) {
    if ((s.d->hid && !hidden) || s.d->desc.empty() || s.d->desc[0] != '<') continue;
    string n = s.d->L;
    if (!s.d->S.empty()) n += "," + s.d->S;
    for (size_t k = 0; k < s.d->A.size(); k++) n += "," + s.d->A[k];
    row("Commands", s.d->L, n, s.d->desc);
  }
  for (Node *n = sel; n; n = n->up)
    for (auto &y : n->flags) {
      if ((y.d->hid && !hidden) || y.d->desc.empty() || y.d->desc[0] != '<') continue;
      string nm = "--" + y.d->L, desc = y.d->desc, ph = w.place.count(y.d->L) ? w.place.at(y.d->L) : "";
      if (!ph.empty()) nm += "=" + ph;
      if (!y.d->S.empty()) nm += ",-" + y.d->S;
      for (auto const &al : y.d->A) nm += ",--" + al;
      if (!y.d->env.empty()) { desc += " (ENV: "; for (size_t k = 0; k < y.d->env.size(); k++) desc += (k ? "," : "") + y.d->env[k]; desc += ")"; }
      string dv = y.d->t == 'b' ? (y.d->def == "true" ? "true" : "") : y.d->def;
      if (y.d->t == 's') dv = "\"" + dv + "\"";
      if (!dv.empty()) desc += " [DEFAULT" + (ph.empty() ? "" : " " + ph) + "=" + dv + "]";
      row(n == sel ? "Options" : n->up ? "Parent Options of \"" + n->d->L + (n->d->S.empty() ? "" : ", " + n->d->S) + (n->d->A.empty() ? "" : (n->d->S.empty() ? ", " : ",") + n->d->A[0]) + "\"" : "Global Options", "--" + y.d->L, nm, desc);
    }
  // groups: the title of a group stands above its members, without the ordering number
  for (auto &sec : {string("Commands"), string("Options")}) {
    string now;
    std::map<string, strs> members;
    std::map<string, int> heads;
    for (auto &q : rs) {
      if (q.section != sec) continue;
      if (q.name[0] == '[') { now = q.name.substr(1, q.name.size() - 2); heads[now]++; continue; }
      members[now].push_back(q.name);
    }
    auto grp = [&](string const &name, string g) {
      auto dot = g.find('.');
      if (dot != string::npos) g = g.substr(dot + 1);
      auto &v = members[g];
      if (std::find(v.begin(), v.end(), name) == v.end()) bad("group", name + " is not listed in its group '" + g + "'");
      if (!g.empty() && heads[g] != 1) bad("group", "group " + g + " has " + to_string(heads[g]) + " titles");
    };
    if (sec == "Commands") { for (auto &s : sel->subs) if ((!s.d->hid || hidden) && !s.d->desc.empty() && s.d->desc[0] == '<') grp(s.d->L, s.d->grp); }
    else for (auto &y : sel->flags) if ((!y.d->hid || hidden) && !y.d->desc.empty() && y.d->desc[0] == '<') grp("--" + y.d->L, y.d->grp.empty() ? y.d->tog : y.d->grp);
  }
  // the end
  string tail = w.tail.empty() ? "Type `" + exe() + " --help` to get help screen (this screen)." : w.tail, end = "Powered by cmdr-cxx: https://github.com/hedzr/cmdr-cxx.";
  auto count = [&](string const &t) { return (int) std::count(ls.begin(), ls.end(), t); };
  x.check("tail", where + ": the tail line '" + tail + "' is there " + to_string(count(tail)) + " times", count(tail) == (w.set.no_tail ? 0 : 1));
  x.check("tail", where + ": the standard tail line is there, too", w.tail.empty() || count("Type `" + exe() + " --help` to get help screen (this screen).") == 0);
  x.check("ending", where + ": the ending is there " + to_string(count(end)) + " times", count(end) == (w.set.no_end ? 0 : 1));
  if (!w.set.no_end) x.eq("last", where, end, ls.back());
  else if (!w.set.no_tail) x.eq("last", where, tail, ls.back());
}
static string const LONG = "<a description that is so long that it does not fit into what is left of a line of the terminal, so it goes on in the next one and then in one more line";
static C kinds(seq::Digits &d, unsigned nf, World &w) { // nf flags and commands of every shape
  C q = c("box", "b").about("<the box");
  static strs const sh{"", "s", "xx"}, ds{"<short", LONG};
  for (unsigned k = 0; k < nf; k++) {
    string n = k ? "beta" : "alpha-flag";
    auto kd = d.take(8);
    F y = f(n, kd & 1 ? string(1, (char) ('p' + k)) : "");
    y.about(ds[kd >> 1 & 1]);
    if (kd & 4) y.al(k ? "second" : "first-alias");
    switch (d.take(7)) {
      case 1: y.of('i', "42"); break;
      case 2: y.of('s', "txt").ev("T_ONE"); w.place[n] = "TEXT"; break;
      case 3: y.of('s', ""); w.place[n] = "A-RATHER-LONG-NAME-OF-A-VALUE"; break;
      case 4: y.of('b', "true").ev("T_ONE").ev("T_TWO"); break;
      case 5: y.group("7.numbers"); break;
      case 6: y.toggle("pick").hidden(); break;
    }
    q << y;
  }
  return q;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  // the frame of the screen: every combination of the texts and settings
  strs au{"", "(null)", "some one"}, cr{"", "(null)", "(c) 2020"}, ab{"", "(null)", "one line", "line one\nline two"}, ex{"", "(null)", "~ run", "first ~ a\nthen ~ b ~"}, hd{"", " - the header"}, tl{"", "the tail"};
  uint64_t nframe = 3 * 3 * 4 * 4 * 2 * 2 * 2 * 2 * 2;
  auto frame = [=](uint64_t i) {
    seq::Digits d(i);
    World w;
    w.author = au[d.take(3)]; w.copyright = cr[d.take(3)]; w.about = ab[d.take(4)]; w.example = ex[d.take(4)]; w.header = hd[d.take(2)]; w.tail = tl[d.take(2)];
    w.set.no_tail = d.take(2); w.set.no_end = d.take(2);
    w.tree << (c("box", "b").al("chest").about(w.about == "(null)" ? "" : w.about) << (c("lid", "l").about("<the lid") << c("knob", "").about("<the knob"))) << f("flag", "f").about("<a flag");
    if (w.example != "(null)") w.expl["box"] = w.expl["box.lid"] = w.example;
    strs a = d.take(2) ? strs{"chest", "--help"} : strs{"-h"};
    return std::make_pair(w, a);
  };
  sp.push_back({"frame", nframe, [=](uint64_t i, seq::Ctx &x) { auto p = frame(i); check(x, "frame #" + to_string(i) + ": " + cmdline(p.second), p.first, p.second); }, [=](uint64_t i) { return "frame #" + to_string(i); }});
  // the lists: every shape of two flags and of two commands
  uint64_t nl = 8 * 7 * 8 * 7 * 3;
  auto lists = [=](uint64_t i) {
    seq::Digits d(i);
    World w;
    C q = kinds(d, 2, w);
    q << c("deep", "").about("<deep");
    w.set.tab = (int[]){-1, 20, 60}[d.take(3)];
    w.tree << q;
    return w;
  };
  for (auto &a : vector<strs>{{"box", "-h"}, {"box", "-hhh"}, {"b", "deep", "--help"}})
    sp.push_back({"flags " + cmdline(a), nl, [=](uint64_t i, seq::Ctx &x) { check(x, "flags #" + to_string(i) + ": " + cmdline(a), lists(i), a); }, [=](uint64_t i) { return "flags #" + to_string(i) + ": " + cmdline(a); }});
  unsigned nc = T ? 3 : 2;
  uint64_t ncs = 4;
  for (unsigned k = 0; k < nc; k++) ncs *= 24;
  auto cmds = [=](uint64_t i) {
    seq::Digits d(i);
    World w;
    w.set.right = d.take(2);
    w.set.tab   = d.take(2) ? 60 : -1;
    C q = c("box", "").about("<the box");
    for (unsigned k = 0; k < nc; k++) {
      string n = (strs{"one-command", "two", "the-third-of-these-commands"})[k];
      auto kd = d.take(8);
      C y = c(n, kd & 1 ? string(k + 1, (char) ('p' + k)) : "");
      y.about(kd & 2 ? LONG : "<short");
      if (kd & 4) { y.al(n + "s"); y.al("al" + n); }
      switch (d.take(3)) { case 1: y.group("3.some"); break; case 2: y.hidden(); break; }
      q << y;
    }
    q << f("last", "").about("<a flag with a rather long list of aliases").al("the-first-alias").al("the-second-alias-of-them");
    w.tree << q;
    return w;
  };
  for (auto &a : vector<strs>{{"box"}, {"box", "-hhh"}})
    sp.push_back({"commands " + cmdline(a), ncs, [=](uint64_t i, seq::Ctx &x) { check(x, "commands #" + to_string(i) + ": " + cmdline(a), cmds(i), a); }, [=](uint64_t i) { return "commands #" + to_string(i) + ": " + cmdline(a); }});
  // the tree of commands: every shape of three levels, grouped or not
  sp.push_back({"tree", 3 * 3 * 3 * 3 * 2, [=](uint64_t i, seq::Ctx &x) {
                  seq::Digits d(i);
                  builtins();
                  App r;
                  C q = c("box", "b").about("<the box");
                  auto k = [&](string n, unsigned g) { C y = c(n, "").about("<about " + n); if (g) y.group(g == 1 ? "3.some" : "other"); return y; };
                  auto g0 = (unsigned) d.take(3), g1 = (unsigned) d.take(3), g2 = (unsigned) d.take(3), g3 = (unsigned) d.take(3);
                  q << (k("one", g0) << (k("two", g1) << k("three", g2))) << k("four", g3);
                  C root;
                  root << q;
                  r.define(root);
                  r.run(d.take(2) ? strs{"box", "--tree"} : strs{"--tree"});
                  x.step();
                  x.interesting();
                  x.state(i);
                  size_t col = 0;
                  for (auto const &l : lines_of(plain(r.out))) {
                    auto p = l.find('<');
                    if (p == string::npos) continue;
                    if (!col) col = p;
                    if (p != col) { x.fail("tree-column", "tree #" + to_string(i) + ": a description starts in column " + to_string(p) + ", another in " + to_string(col) + "\n" + plain(r.out)); break; }
                  }
                  x.check("tree", "tree #" + to_string(i) + ": no description", col > 0);
                }, [=](uint64_t i) { return "tree #" + to_string(i); }});
  return seq::run(argc, argv, "C14", sp, "help screens of all combinations of program texts and screen settings, and of all shapes of two flags and of two or three commands (titles, aliases, placeholders, defaults, environment variables, groups, hiding, long descriptions), each line compared with the texts given");
}
