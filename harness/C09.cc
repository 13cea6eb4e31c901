// C09 reset: every pair (thorough: triple) of command lines with reset() between them, against an application of
// a process that has never run anything
// KIND: seq
#include "cli.hh"
#include <sys/wait.h>
using namespace cli;
static C tree(int which) {
  C t;
  t << f("verbose-mode", "m").ev("Z_MODE") << f("red", "r").toggle("color").group("10.look") << f("green", "g").of('b', "true").toggle("color").group("10.look") << f("num", "n").of('i', "3").ev("Z_NUM") << f("loud", "L").toggle("sound") << f("mute", "U").toggle("sound");
  if (which == 0) {
    t << (c("server", "s").al("svr").group("2.net") << f("port", "p").of('u', "80") << f("host", "").of('s', "h") << (c("start", "st") << f("fore", "F") << f("must", "M").required()) << (c("stop", "so").hidden() << f("fast", "fa").toggle("how") << f("slow", "sl").toggle("how")));
    t << (c("list", "l") << f("ratio", "R").of('d', "0.5") << f("port", "p").of('s', "text"));
    C bare = c("bare", "B");
    bare.no_action = true;
    t << bare;
  } else { // the same names mean other things
    t << (c("list", "s") << f("port", "p").of('i', "1") << (c("server", "st") << f("must", "M")) << c("stop", "l"));
    t << (c("server", "q") << f("ratio", "R").of('s', "x") << f("fore", "M").of('b', "true"));
  }
  return t;
}
struct Line { strs args; std::map<string, string> env; };
static vector<Line> const lines{
    {{}, {}}, {{"list"}, {}}, {{"bare", "w"}, {}}, {{"list", "boom"}, {}}, {{"l", "-m", "-U", "a", "b"}, {}}, {{"--red", "list"}, {}}, {{"list", "-rg"}, {}}, {{"-n7", "list", "-R2.5"}, {}}, {{"list", "--port=q", "-nm"}, {}},
    {{"server"}, {}}, {{"s", "-p", "1", "start", "-M"}, {}}, {{"server", "start"}, {}}, {{"svr", "st", "-M", "-F", "x"}, {}}, {{"server", "stop", "-sl"}, {}}, {{"server", "stop", "--fast", "--slow"}, {}},
    {{"nope"}, {}}, {{"list", "--nope"}, {}}, {{"servr"}, {}}, {{"--feel-like", "lst"}, {}}, {{"--help"}, {}}, {{"list", "--help"}, {}}, {{"server", "stop", "-hhh"}, {}}, {{"help", "server"}, {}},
    {{"--version"}, {}}, {{"version"}, {}}, {{"list", "--tree"}, {}}, {{"--no-color", "--help"}, {}}, {{"list", "--no-color"}, {}}, {{"-D", "list"}, {}}, {{"list", "~~debug", "~~debug", "~~debug"}, {}},
    {{"--version-sim", "9.9", "list", "-V"}, {}}, {{"-vvq", "list"}, {}}, {{"list", "-n", "x"}, {}}, {{"--", "server"}, {}}, {{"list", "--", "-m"}, {}}, {{"--shell-completion", "--help"}, {}}, {{"server", "--tree", "--help"}, {}},
    {{"list"}, {{"Z_NUM", "9"}, {"Z_MODE", "1"}}}, {{"server", "stop"}, {{"APP_CLI_SERVER_PORT", "99"}, {"APP_CLI_NUM", "5"}}}, {{"--help"}, {{"NO_COLOR", "1"}}}, {{"list", "-g", "-m-"}, {{"Z_MODE", "1"}}}};
// white space (and colours around it) is left out: column widths grow with what was printed before, in the whole process
static string squeeze(string const &s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { while (i < s.size() && s[i] != 109) i++; continue; } if (!isspace((unsigned char) s[i])) r += s[i]; } return r; }
static void execute(App &r, Line const &l, int &before) {
  r.invs.clear();
  r.env = l.env;
  before = 0;
  r.run(l.args);
}
static void more(App &r, facts &m, int before) {
  m["printed"]                 = squeeze(r.out);
  m["error messages"]          = squeeze(r.err);
  m["hits of the application"] = to_string(r.app->hit_count()) + " as " + r.app->hit_title();
  m["hooks"]                   = to_string(before);
  for (auto k: {"app", "app.cli", "app.nope", "app.cli.nope"}) m[string("has ") + k] = r.app->store().has("", k) ? "yes" : "no";
  std::ostringstream o;
  r.app->store().dump_full_keys(o);
  m["store dump"] = o.str();
}
static void prepare(App &r, C const &t, int &before, bool hooks) {
  r.action = [](string const &who, strs const &rem) { if (!rem.empty() && rem[0] == "boom") throw std::runtime_error("planned"); return (int) (who.size() + 10 * rem.size()); };
  r.define(t);
  if (!hooks) return;
  // whatever can be registered or chosen
  auto &a = *r.app;
  a.set_global_pre_invoke_handler([&](auto const &, auto const &) { before++; return 0; });
  a.set_global_post_invoke_handler([&](auto const &, auto const &) { before++; return 0; });
  a.set_global_on_arg_added_handlers([&](auto &&...) { before++; });
  a.set_global_on_cmd_added_handlers([&](auto &&...) { before++; });
  a.set_global_on_arg_matched_handlers([&](auto &&...) { before++; });
  a.set_global_on_cmd_matched_handlers([&](auto &&...) { before++; });
  a.set_global_on_loading_externals([&](cmdr::app &q) { before++; q.set("num", 77); });
  a.set_global_on_command_not_hooked([&](auto const &, auto const &) { before++; return 9; });
  a.set_global_on_post_run_handlers([&](cmdr::app const &) { before++; });
  a.set_on_handle_exception_ptr([&](std::exception_ptr const &) { before++; });
  a.treat_unknown_input_command_as_error(false).treat_unknown_input_flag_as_error(false);
}
static facts observe(C const &t, Line const &l) {
  int before = 0;
  App r;
  prepare(r, t, before, false);
  execute(r, l, before);
  auto m = r.seen();
  more(r, m, before);
  return m;
}
// the same in a process of its own
static facts fresh(C const &t, Line const &l) {
  int p[2];
  if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    auto m = observe(t, l);
    string s;
    for (auto const &x: m) s += x.first + '\0' + x.second + '\0';
    for (size_t i = 0; i < s.size();) { auto n = write(p[1], s.data() + i, s.size() - i); if (n <= 0) break; i += (size_t) n; }
    _exit(0);
  }
  close(p[1]);
  string s;
  char b[65536];
  for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) s.append(b, (size_t) n);
  close(p[0]);
  waitpid(pid, nullptr, 0);
  facts m;
  for (size_t i = 0; i < s.size();) { string k = s.c_str() + i; i += k.size() + 1; string v = s.c_str() + i; i += v.size() + 1; m[k] = v; }
  return m;
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  builtins();
  C trees[2]{tree(0), tree(1)};
  vector<facts> ref[2];
  bool replay = false;
  (void) replay;
  for (int k = 0; k < 2; k++) for (auto const &l: lines) ref[k].push_back(fresh(trees[k], l));
  size_t const N = lines.size();
  struct Hist { vector<size_t> l; vector<int> t; bool hooks; };
  auto play = [&](seq::Ctx &x, Hist const &h) {
    App r;
    int before = 0;
    string name;
    for (size_t i = 0; i < h.l.size(); i++) {
      bool last = i + 1 == h.l.size();
      if (i) r.app->reset();
      prepare(r, trees[h.t[i]], before, h.hooks && !last);
      auto const &l = lines[h.l[i]];
      for (auto const &e: l.env) name += e.first + "=" + e.second + " ";
      name += (h.t[i] ? "B:" : "A:") + cmdline(l.args) + (last ? "" : "; reset; ");
      execute(r, l, before);
      x.step();
    }
    auto got = r.seen();
    more(r, got, before);
    x.interesting();
    x.outcome(name);
    x.state(seq::fnv(squeeze(got["store dump"]) + got["actions"] + got["printed"]));
    auto want = ref[h.t.back()][h.l.back()];
    x.check("reference", "no reference for " + name, !want.empty());
    compare(x, name, want, got);
  };
  auto nm = [](Hist const &h) { string s; for (size_t i = 0; i < h.l.size(); i++) s += (h.t[i] ? "B:" : "A:") + cmdline(lines[h.l[i]].args) + "; "; return s; };
  auto pair = [N](uint64_t i) { seq::Digits d(i); Hist h; h.l = {d.take(N), d.take(N)}; h.t = {0, 0}; h.hooks = d.take(2); return h; };
  sp.push_back({"pairs", N * N * 2, [=](uint64_t i, seq::Ctx &x) { play(x, pair(i)); }, [=](uint64_t i) { return nm(pair(i)); }});
  auto other = [N](uint64_t i) { seq::Digits d(i); Hist h; h.l = {d.take(N), d.take(N)}; h.t = {0, 1}; h.hooks = false; if (d.take(2)) std::swap(h.t[0], h.t[1]); return h; };
  sp.push_back({"redefined", N * N * (T ? 2 : 1), [=](uint64_t i, seq::Ctx &x) { play(x, other(i)); }, [=](uint64_t i) { return nm(other(i)); }});
  if (T) {
    auto three = [N](uint64_t i) { seq::Digits d(i); Hist h; h.l = {d.take(N), d.take(N), d.take(N)}; h.t = {0, (int) (h.l[0] + h.l[2]) % 2, 0}; h.hooks = h.l[1] % 2; return h; };
    sp.push_back({"triples", N * N * N, [=](uint64_t i, seq::Ctx &x) { play(x, three(i)); }, [=](uint64_t i) { return nm(three(i)); }});
  }
  // an application that is reset twice, or before it ever ran, and one that outlives another
  sp.push_back({"reset-twice", N * 3, [=](uint64_t i, seq::Ctx &x) {
                  seq::Digits d(i);
                  auto l  = d.take(N);
                  int how = (int) d.take(3);
                  int before = 0;
                  std::unique_ptr<App> old;
                  if (how == 2) { old.reset(new App); prepare(*old, trees[1], before, true); execute(*old, lines[(l + 7) % N], before); }
                  App r;
                  if (how == 2) old.reset();
                  if (how < 2) { prepare(r, trees[how], before, true); r.app->reset(); if (how) r.app->reset(); }
                  prepare(r, trees[0], before, false);
                  execute(r, lines[l], before);
                  auto got = r.seen();
                  more(r, got, before);
                  x.step();
                  x.interesting();
                  x.outcome("reset " + to_string(how) + cmdline(lines[l].args));
                  compare(x, "reset without a run (" + to_string(how) + "), then" + cmdline(lines[l].args), ref[0][l], got);
                }, [=](uint64_t i) { seq::Digits d(i); auto l = d.take(N); return "reset without a run, way " + to_string(d.v) + ", then " + cmdline(lines[l].args); }});
  return seq::run(argc, argv, "C09", sp, "all ordered pairs (thorough: triples) of 39 command lines on two trees with reset() between, compared in every observable (actions, values, hits, toggle groups, store dump, printed text without white space) with the line run in a process of its own; address sanitizer");
}
