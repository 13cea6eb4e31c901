// C10 definitions: every sequence of definitions over a tiny name alphabet, then every lookup of every name
// KIND: fast
#include "cli.hh"
using namespace cli;
namespace ex = cmdr::exception;
struct look : cmdr::opt::cmd {
  static cmdr::opt::arg &flag(cmdr::opt::cmd &c, char const *n, bool e) { return static_cast<look &>(c).find_flag(n, e); }
  static cmdr::opt::arg const *cflag(cmdr::opt::cmd const &c, string const &n, bool e) { return static_cast<look const &>(c).find_flag(n, e); }
  static cmdr::opt::cmd &sub(cmdr::opt::cmd &c, char const *n, bool e) { return static_cast<look &>(c).find_command(n, e); }
  static cmdr::opt::cmd const *csub(cmdr::opt::cmd const &c, string const &n, bool e) { return static_cast<look const &>(c).find_command(n, e); }
};
struct Item { string L, S; strs A; bool command; int level; string text() const { string s = string(level ? "below: " : "") + (command ? "command " : "flag ") + L + "/" + S; for (auto &a: A) s += "/" + a; return s; } };
template<typename FN> static string attempt(FN &&fn) {
  try { fn(); }
  catch (ex::dup_short_flag_found const &) { return "short flag"; }
  catch (ex::dup_long_flag_found const &) { return "long flag"; }
  catch (ex::dup_alias_flag_found const &) { return "alias flag"; }
  catch (ex::dup_short_cmd_found const &) { return "short command"; }
  catch (ex::dup_long_cmd_found const &) { return "long command"; }
  catch (ex::dup_alias_cmd_found const &) { return "alias command"; }
  catch (std::exception const &e) { return string("std ") + e.what(); }
  catch (...) { return "other"; }
  return "accepted";
}
static void play(seq::Ctx &x, vector<Item> const &items, bool at_root) {
  builtins();
  App r;
  C base;
  if (!at_root) { base << (c("top", "t") << c("below", "b")); r.define(base); }
  cmdr::opt::cmd *at[2]{};
  if (at_root) at[0] = r.app;
  else { at[0] = r.app->last_added_command(); at[1] = at[0]->last_added_command(); }
  // the model: names in use by level and kind
  struct Names { std::map<string, string> shorts, longs; std::map<string, Item> items; };
  Names n[2][2];
  if (at_root) {
    for (auto const &b: builtins().flags) { n[0][0].longs[b.L] = b.L; for (auto &a: b.A) n[0][0].longs[a] = b.L; if (!b.S.empty()) n[0][0].shorts[b.S] = b.L; n[0][0].items[b.L] = {b.L, b.S, b.A, false, 0}; }
    for (auto const &b: builtins().subs) { n[0][1].longs[b.L] = b.L; for (auto &a: b.A) n[0][1].longs[a] = b.L; if (!b.S.empty()) n[0][1].shorts[b.S] = b.L; n[0][1].items[b.L] = {b.L, b.S, b.A, true, 0}; }
  } else { Item t{"below", "b", {}, true, 0}; n[0][1].longs["below"] = "below"; n[0][1].shorts["b"] = "below"; n[0][1].items["below"] = t; }
  string line;
  for (auto const &it: items) {
    line += (line.empty() ? "" : ", ") + it.text();
    auto &m = n[it.level][it.command];
    std::set<string> reasons, own{it.L};
    string kind = it.command ? " command" : " flag";
    if (!it.S.empty() && m.shorts.count(it.S)) reasons.insert("short" + kind);
    if (m.longs.count(it.L)) reasons.insert("long" + kind);
    for (auto const &a: it.A) if (m.longs.count(a) || !own.insert(a).second) reasons.insert("alias" + kind);
    string got;
    if (it.command) { C k = c(it.L, it.S); k.A = it.A; got = attempt([&] { r.add(*at[it.level], k, ""); }); }
    else { F k = f(it.L, it.S).of('i', to_string(seq::fnv(it.text()) % 100000)); k.A = it.A; got = attempt([&] { App::add(*at[it.level], k); }); }
    x.step();
    if (reasons.empty()) {
      x.check("rejected", line + ": the last definition was rejected (" + got + ")", got == "accepted");
      m.items[it.L] = it;
      m.longs[it.L] = it.L;
      for (auto const &a: it.A) m.longs[a] = it.L;
      if (!it.S.empty()) m.shorts[it.S] = it.L;
    } else {
      x.interesting();
      string w;
      for (auto const &y: reasons) w += y + " ";
      x.check(got == "accepted" ? "duplicate-accepted" : "wrong-error", line + ": the last definition clashes (" + w + ") but: " + got, reasons.count(got) == 1);
    }
    x.outcome(line + got);
  }
  // lookups
  strs names{"x", "y", "z", "w", "nope", "top", "below", "b", "xx"};
  if (at_root) { names.insert(names.end(), {"help", "h", "?", "info", "version", "V", "ver", "v", "verbose", "vs", "#", "bdinfo", "g", "gen", "generate", "display", "pr", "D", "debug", "bet"}); }
  uint64_t sum = 0;
  for (int lv = 0; lv < (at_root ? 1 : 2); lv++)
    for (auto const &nm: names) {
      auto &mf = n[lv][0], &mc = n[lv][1];
      auto may = [&](Names const &m, string const &found, bool extended) { // is `found` a right answer?
        bool any = false;
        for (auto const &i: m.items) {
          bool has = i.first == nm;
          if (extended) { has |= i.second.S == nm; for (auto const &a: i.second.A) has |= a == nm; }
          if (m.items.count(nm)) has = i.first == nm; // the long title comes first
          if (has && found == i.first) return true;
          any |= has;
        }
        return !any && found.empty();
      };
      for (int e = 0; e < 2; e++) {
        for (string lead: {"", "-", "--"}) {
          string q = lead + nm;
          auto &a  = look::flag(*at[lv], q.c_str(), e);
          string f1 = a.valid() ? a.title_long() : "";
          x.check("flag-lookup", line + ": looking up flag " + q + (e ? " (extended)" : "") + " finds " + (f1.empty() ? "nothing" : f1), may(mf, f1, e));
          auto *b = look::cflag(*at[lv], q, e);
          string f2 = b ? b->title_long() : "";
          x.check("const-flag-lookup", line + ": looking up flag " + q + (e ? " (const, extended)" : " (const)") + " finds " + (f2.empty() ? "nothing" : f2), may(mf, f2, e));
          if (a.valid()) x.check("flag-value", line + ": flag " + q + " has the default of another", at_root || mf.items.count(f1) == 0 || show(*a.default_value()) == "i:" + to_string(seq::fnv(mf.items[f1].text()) % 100000));
          sum = sum * 31 + seq::fnv(f1 + f2);
        }
        string c1, c2;
        { auto &a = look::sub(*at[lv], nm.c_str(), e); c1 = a.valid() ? a.title_long() : ""; }
        { auto *b = look::csub(*at[lv], nm, e); c2 = b ? b->title_long() : ""; }
        x.check("command-lookup", line + ": looking up command " + nm + (e ? " (extended)" : "") + " finds " + (c1.empty() ? "nothing" : c1), may(mc, c1, e));
        x.check("const-command-lookup", line + ": looking up command " + nm + (e ? " (const, extended)" : " (const)") + " finds " + (c2.empty() ? "nothing" : c2), may(mc, c2, e));
        auto &o = (*at[lv])(nm.c_str(), e);
        x.check("command-operator", line + ": operator()(" + nm + ") disagrees with the lookup", (o.valid() ? o.title_long() : "") == c1);
        sum = sum * 31 + seq::fnv(c1 + c2);
      }
      auto &o = (*at[lv])[nm.c_str()];
      x.check("flag-operator", line + ": operator[](" + nm + ") finds the wrong flag", (o.valid() ? o.title_long() : "") == (mf.items.count(nm) ? nm : ""));
    }
  x.state(sum);
  // what was rejected left nothing behind: exactly the accepted definitions exist
  for (int lv = 0; lv < (at_root ? 1 : 2); lv++) {
    std::multiset<string> f1, f2, c1, c2;
    for (auto &a: peek::args(*at[lv])) f1.insert(a.title_long());
    for (auto &a: n[lv][0].items) f2.insert(a.first);
    for (auto &a: peek::cmds(*at[lv])) c1.insert(a.title_long());
    for (auto &a: n[lv][1].items) c2.insert(a.first);
    x.check("left-behind-flags", line + ": " + to_string(f1.size()) + " flags exist, " + to_string(f2.size()) + " were accepted", f1 == f2);
    x.check("left-behind-commands", line + ": " + to_string(c1.size()) + " commands exist, " + to_string(c2.size()) + " were accepted", c1 == c2);
  }
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto kind = [](vector<string> L, vector<string> S, vector<strs> A) { vector<Item> r; for (auto &l: L) for (auto &s: S) for (auto &a: A) r.push_back({l, s, a, false, 0}); return r; };
  auto mk = [&](string name, vector<Item> items, unsigned k, bool root) {
    uint64_t n = 1;
    for (unsigned i = 0; i < k; i++) n *= items.size();
    auto at = [=](uint64_t i) { seq::Digits d(i); vector<Item> r; for (unsigned j = 0; j < k; j++) r.push_back(items[d.take(items.size())]); return r; };
    sp.push_back({name, n, [=](uint64_t i, seq::Ctx &x) { play(x, at(i), root); }, [=](uint64_t i) { string s; for (auto &y: at(i)) s += y.text() + "; "; return s; }});
  };
  auto one = kind({"x", "y", "z"}, {"", "x", "y"}, {{}, {"x"}, {"y"}, {"z"}});
  auto as  = [](vector<Item> v, bool cmd, int lv) { for (auto &i: v) { i.command = cmd; i.level = lv; } return v; };
  if (T) { mk("flags", one, 3, false); mk("commands", as(one, true, 0), 3, false); }
  else { auto few = kind({"x", "y"}, {"", "x", "z"}, {{}, {"x"}, {"z"}}); mk("flags", few, 3, false); mk("commands", as(few, true, 0), 3, false); mk("flag-pairs", one, 2, false); mk("command-pairs", as(one, true, 0), 2, false); }
  auto more = kind({"x", "y"}, {"", "xx"}, {{}, {"x"}, {"y", "z"}, {"z", "z"}, {"z", "w"}, {"w", "z"}, {"q", "w", "z"}, {"q", "u", "q"}});
  mk("two-aliases-flags", more, 2, false);
  mk("two-aliases-commands", as(more, true, 0), 2, false);
  auto small = kind({"x", "y"}, {"", "x"}, {{}, {"y"}});
  vector<Item> mixed;
  for (int k = 0; k < 4; k++) { auto v = as(small, k & 1, k >> 1); mixed.insert(mixed.end(), v.begin(), v.end()); }
  mk("levels-and-kinds", mixed, T ? 3 : 2, false);
  auto rt = kind({"x", "help", "info", "generate"}, {"", "h", "V", "?", "g", "pr"}, {{}, {"verbose"}, {"usages"}, {"ver", "gen"}, {"display"}});
  mk("beside-builtins-flags", rt, 1, true);
  mk("beside-builtins-commands", as(rt, true, 0), 1, true);
  return seq::run(argc, argv, "C10", sp, "every sequence of 2-3 definitions over names x,y,z as long title, short title and up to two aliases, on two levels, for flags and commands and beside the built-in ones; errors and all lookups (plain, extended, const, with leading dashes) compared with a table");
}
