// C12 callbacks: what was defined, matched and hit is reported once, in order, with everything already in place
// KIND: fast
#include "cli.hh"
using namespace cli;
namespace opt = cmdr::opt;
static C fixed_tree() {
  C t;
  t << f("alpha", "a") << f("count", "n").of('i', "1").al("num") << f("text", "t").of('s', "x");
  t << f("one", "o").toggle("g") << f("two", "w").toggle("g");
  t << (c("server", "s").al("service") << f("listen", "l").of('i', "80") << f("beta", "b") << c("start", "st") << c("stop", ""));
  t << c("run", "r");
  return t;
}
static string list(vector<string> const &v) { string s; for (auto &x : v) s += "\n    " + x; return v.empty() ? "\n    (nothing)" : s; }
static string first_diff(vector<string> const &a, vector<string> const &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return i < a.size() ? a[i].substr(0, a[i].find(' ')) : i < b.size() ? b[i].substr(0, b[i].find(' ')) : "";
}
// answers: what the hit handler of a key returns
using Answers = std::map<string, int>;
struct Setup {
  Answers answers;
  std::map<string, int> custom;  // number of a custom action -> result
  string thrower;                // a command whose pre-invoke handler requests action 25
  int handlers = 1;
  bool null_handlers = false;
};
static void one(seq::Ctx &x, C const &t, strs const &a, Setup const &su) {
  builtins();
  App r;
  Model m(t);
  vector<string> got, want;
  bool done = false;
  auto key_of = [](string k) { return k; };
  auto kept = [&](string const &k) { return r.app->store().has("", k.c_str()) ? show(r.app->store().get_raw(k)) : string("(nothing)"); };
  r.dress_flag = [&](opt::opt &o, string const &key) {
    o.on_hit([&, key](opt::cmd const &cc, opt::arg const &ff, strs const &rest) -> opt::Action {
      got.push_back("flag-hit " + key + " hits=" + to_string(ff.hit_count()) + " as " + ff.hit_title() + " of " + ff.title_long() + ", command " + cc.title_long() + ", rest " + show(strs(rest.begin(), rest.end())) + ", value " + kept(key));
      auto it = su.answers.find(key);
      return it == su.answers.end() ? opt::Action::Continue : (opt::Action) it->second;
    });
  };
  r.dress = [&](opt::sub_cmd &o, string const &path) {
    string key = string(DEFAULT_CLI_KEY_PREFIX) + "." + path;
    o.on_hit([&, key](opt::cmd const &cc, strs const &rest) -> opt::Action {
      got.push_back("command-hit " + key + " given " + cc.dotted_key() + " hits=" + to_string(cc.hit_count()) + " as " + cc.hit_title() + ", rest " + show(strs(rest.begin(), rest.end())));
      auto it = su.answers.find(key);
      return it == su.answers.end() ? opt::Action::Continue : (opt::Action) it->second;
    });
    if (path == su.thrower) o.on_pre_invoke([](opt::cmd const &, strs const &) -> int { throw opt::cmdr_requests_exception((opt::Action) 25); });
  };
  for (int h = 0; h < su.handlers; h++) {
    string n = h ? "#" + to_string(h) : "";
    if (su.null_handlers) { r.app->set_global_on_arg_matched_handlers(nullptr); r.app->set_global_on_cmd_matched_handlers(nullptr); }
    r.app->set_global_on_arg_matched_handlers([&, n](opt::arg *y) { got.push_back("flag-matched" + n + " " + y->dotted_key() + " hits=" + to_string(y->hit_count()) + " as " + y->hit_title() + ", value " + kept(y->dotted_key())); });
    r.app->set_global_on_cmd_matched_handlers([&, n](opt::cmd *y) { got.push_back("command-matched" + n + " " + y->dotted_key() + " hits=" + to_string(y->hit_count()) + " as " + y->hit_title()); });
  }
  for (auto const &k : su.custom) {
    int res = k.second;
    string nm = k.first;
    r.app->register_action((opt::Action) atoi(k.first.c_str()), [&, res, nm](opt::types::parsing_context &pc, int argc, char **) -> int { got.push_back("action " + nm + " with " + to_string(argc) + " arguments, command " + pc.last_matched_cmd().title_long()); return res; });
  }
  r.define(t);
  got.clear();
  r.action = m.action = [](string const &, strs const &) { return 7; };
  int request = 0;
  std::set<string> own;
  std::function<void(C const &, string)> keys = [&](C const &q, string k) { for (auto &y : q.flags) own.insert(k + "." + y.L); for (auto &y : q.subs) { own.insert(k + "." + y.L); keys(y, k + "." + y.L); } };
  keys(t, DEFAULT_CLI_KEY_PREFIX);
  m.halt = [&](Model::Event const &e) {
    auto it = su.answers.find(e.key);
    if (it == su.answers.end() || done) return false;
    if (it->second > 0 && it->second < 31) request = it->second;
    return it->second < 0 || it->second >= 33;
  };
  m.run(a);
  r.run(a);
  x.step(a.size());
  string line = cmdline(a);
  for (auto &q : su.answers) line = q.first.substr(8) + " answers " + to_string(q.second) + ": " + line;
  x.outcome(line);
  if (m.ambiguous || !m.bad_values.empty() || m.felt || (m.end == Model::Aborted && !m.halted)) return;
  string cur = r.app->title_long();
  // expected
  Node *at = &m.root;
  for (auto &e : m.events) {
    if (e.kind == 'c') { for (auto &s : at->subs) if (s.key == e.key) { at = &s; break; } }
    for (int h = 0; h < su.handlers; h++) {
      string n = h ? "#" + to_string(h) : "";
      if (e.kind == 'c') want.push_back("command-matched" + n + " " + e.key + " hits=" + to_string(e.hits) + " as " + e.title);
      else want.push_back("flag-matched" + n + " " + e.key + " hits=" + to_string(e.hits) + " as " + e.title + ", value " + e.val);
    }
    if (!own.count(e.key)) continue;
    strs rest(a.begin() + (long) e.next, a.end());
    if (e.kind == 'c') want.push_back("command-hit " + e.key + " given " + e.key + " hits=" + to_string(e.hits) + " as " + e.title + ", rest " + show(rest));
    else want.push_back("flag-hit " + e.key + " hits=" + to_string(e.hits) + " as " + e.title + " of " + e.key.substr(e.key.rfind('.') + 1) + ", command " + (at == &m.root ? cur : at->d->L) + ", rest " + show(rest) + ", value " + e.val);
  }
  int rc = m.end == Model::Action ? 7 : m.end == Model::Required ? -1 : 0;
  bool acts = m.end == Model::Action;
  if (m.halted) rc = 0, acts = false;
  else {
    if (!request && acts && !su.thrower.empty() && m.sel->path == su.thrower) request = 25;
    if (request) {
      acts = false;
      rc   = 0;
      auto it = su.custom.find(to_string(request));
      if (it != su.custom.end()) { rc = it->second; want.push_back("action " + it->first + " with " + to_string(a.size() + 1) + " arguments, command " + (m.sel == &m.root ? cur : m.sel->d->L)); }
    }
  }
  for (auto &fl : builtins().flags) if (auto *q = m.flag(m.root, string(DEFAULT_CLI_KEY_PREFIX) + "." + fl.L); q->hits && fl.L != "verbose" && fl.L != "quiet") return; // C11 and C13
  if (m.end == Model::Builtin) return;
  if (!m.events.empty()) x.interesting();
  x.state(seq::fnv(list(want)));
  if (want != got) x.fail("callbacks-" + first_diff(want, got), line + ": expected" + list(want) + "\n  got" + list(got));
  x.eq("result", line, to_string(rc), r.thrown.empty() ? to_string(r.rc) : "exception " + r.thrown);
  x.check("action", line + (acts ? ": the action did not run" : ": an action ran"), r.invs.size() == (acts ? 1u : 0u));
  facts w, g = r.seen();
  m.collect(w, m.root);
  g.erase("result"), g.erase("actions");
  compare(x, line, w, g, "state-");
}
// definitions, accepted and rejected, on two levels
struct Def { bool cmd; string L, S, A; };
static vector<Def> const defs{{false, "alpha", "a", ""}, {false, "beta", "b", "alpha"}, {false, "gamma", "a", ""}, {false, "delta", "d", "dd"}, {true, "alpha", "a", ""}, {true, "beta", "a", ""}, {true, "gamma", "y", "alpha"}, {true, "delta", "z", "dx"}};
static void definitions(seq::Ctx &x, vector<int> const &w, unsigned from, bool nested) {
  builtins();
  App r;
  vector<string> got, want;
  string line;
  opt::cmd *to = r.app;
  string base = DEFAULT_CLI_KEY_PREFIX;
  if (nested) { C b; b << c("box", ""); r.define(b); to = r.app->last_added_command(); base += ".box"; }
  std::set<string> used[2];
  for (unsigned k = 0; k < w.size(); k++) {
    if (k == from) for (int h = 0; h < 2; h++) {
      string n = h ? "second " : "";
      r.app->set_global_on_arg_added_handlers([&, n](opt::arg *a) { got.push_back(n + "flag " + a->dotted_key() + " short " + a->title_short() + " of " + a->owner()->dotted_key() + " default " + (r.app->store().has("", a->dotted_key().c_str()) ? show(r.app->store().get_raw(a->dotted_key())) : "(none)")); });
      r.app->set_global_on_cmd_added_handlers([&, n](opt::cmd *a) { got.push_back(n + "command " + a->dotted_key() + " short " + a->title_short() + " below " + a->owner()->dotted_key()); });
    }
    auto const &d = defs[(size_t) w[k]];
    line += (d.cmd ? " command " : " flag ") + d.L;
    bool clash = false, threw = false;
    strs names{"l" + d.L, "s" + d.S};
    if (!d.A.empty()) names.push_back("l" + d.A);
    for (auto &n : names) clash |= used[d.cmd].count(n) > 0;
    try {
      if (d.cmd) { opt::sub_cmd s; if (d.A.empty()) s(d.L.c_str(), d.S.c_str()); else s(d.L.c_str(), d.S.c_str(), d.A.c_str()); *to += s; }
      else { opt::opt o{(int) (5 + w[k])}; if (d.A.empty()) o(d.L.c_str(), d.S.c_str()); else o(d.L.c_str(), d.S.c_str(), d.A.c_str()); *to += o; }
    } catch (std::exception const &) { threw = true; }
    if (clash != threw) return; // C10
    x.step();
    if (clash) { line += " (rejected)"; continue; }
    for (auto &n : names) used[d.cmd].insert(n);
    if (k >= from) for (int h = 0; h < 2; h++)
      want.push_back((h ? string("second ") : string()) + (d.cmd ? "command " + base + "." + d.L + " short " + d.S + " below " : "flag " + base + "." + d.L + " short " + d.S + " of ") + (to->dotted_key()) + (d.cmd ? "" : " default i:" + to_string(5 + w[k])));
  }
  if (!want.empty()) x.interesting();
  x.state(seq::fnv(list(want)));
  x.outcome(line);
  if (want != got) x.fail("added", "defined" + line + ": expected calls" + list(want) + "\n  got" + list(got));
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto t = std::make_shared<C>(fixed_tree());
  auto lines = [&](string name, strs alpha, unsigned lo, unsigned hi, vector<Setup> const &sus) {
    Words w{alpha, lo, hi};
    auto n = sus.size();
    sp.push_back({name, w.size() * n, [=](uint64_t i, seq::Ctx &x) { one(x, *t, w.at(i / n), sus[i % n]); }, [=](uint64_t i) { return cmdline(w.at(i / n)) + " #" + to_string(i % n); }});
  };
  Setup plain, two, nul;
  two.handlers = 2;
  nul.handlers = 2;
  nul.null_handlers = true;
  lines("order", {"server", "s", "start", "run", "-a", "--count", "-n5", "3", "--listen=4", "-ab", "-b+", "word"}, 0, T ? 5 : 4, {plain});
  lines("spellings", {"service", "st", "stop", "--num=2", "--num", "7", "-t", "-an3", "-abl9", "--one", "-w", "--verbose", "--", "-a-"}, 1, T ? 4 : 3, {plain, two, nul});
  vector<Setup> stops, reqs;
  string K = string(DEFAULT_CLI_KEY_PREFIX) + ".";
  for (string key : {"alpha", "count", "two", "server", "server.start", "server.beta"})
    for (int ans : {-1, 0, 31, 33, 34}) { Setup s; s.answers[K + key] = ans; stops.push_back(s); }
  lines("stops", {"server", "start", "run", "-a", "-n5", "-ab", "-ba", "-w", "word"}, 0, T ? 4 : 3, stops);
  for (string key : {"alpha", "count", "server", "server.start", "server.beta"})
    for (int reg = 0; reg < 2; reg++) {
      Setup s;
      s.answers[K + key] = 25;
      if (reg) s.custom["25"] = 42;
      reqs.push_back(s);
      s.answers[K + "two"] = 26;
      s.custom["26"] = 43;
      reqs.push_back(s);
    }
  for (int reg = 0; reg < 2; reg++) { Setup s; s.thrower = "server.start"; if (reg) s.custom["25"] = 44; s.answers[K + "two"] = 26; s.custom["26"] = 45; reqs.push_back(s); }
  lines("requests", {"server", "start", "run", "-a", "-n5", "-ab", "-w", "word"}, 0, T ? 5 : 3, reqs);
  unsigned len = T ? 6 : 4;
  uint64_t nd = seq::words_count(defs.size(), 1, len);
  sp.push_back({"definitions", nd * 3 * 2, [=](uint64_t i, seq::Ctx &x) { definitions(x, seq::word_at(i / 6, defs.size(), 1, len), (unsigned) (i % 3), (i / 3) % 2); },
                [=](uint64_t i) { string s; for (int k : seq::word_at(i / 6, defs.size(), 1, len)) s += " " + defs[(size_t) k].L; return s; }});
  return seq::run(argc, argv, "C12", sp, "the calls of all added, matched and hit handlers on all lines over an alphabet, with every answer of a hit handler, custom actions requested by handlers and by exceptions, and all sequences of accepted and rejected definitions");
}
