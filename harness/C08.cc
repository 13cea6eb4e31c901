// C08 hooks: every assignment of outcomes to the five callbacks of an invocation, post-run callbacks after every kind of run
// KIND: fast
#include "cli.hh"
using namespace cli;
struct Biz : cmdr::exception::cmdr_biz_error { Biz() : cmdr_biz_error(__FILE__, __LINE__, "biz") {} };
// 0 absent, 1 returns 0, 2 returns a non-zero result, 3 throws std::exception, 4 throws an int, 5 requests the version, 6 throws a cmdr error
static int act(int what, int code) {
  switch (what) {
    case 2: return code;
    case 3: throw std::runtime_error("planned");
    case 4: throw 42;
    case 5: throw cmdr::opt::cmdr_requests_exception(cmdr::opt::Action::RequestVersionsScreen);
    case 6: throw Biz();
    default: return 0;
  }
}
static string const names[]{"absent", "ok", "nonzero", "throws", "throws-int", "requests-version", "throws-cmdr"};
struct Plan { int g, c, a, cp, gp; };
static Plan plan(uint64_t i) {
  seq::Digits d(i);
  Plan p;
  p.g  = (int) d.take(7);
  p.c  = (int) d.take(7);
  p.a  = (int) d.take(7);
  p.cp = (int) d.take(7);
  p.gp = (int) d.take(7);
  return p;
}
static uint64_t const plans = 7 * 7 * 7 * 7 * 7;
static string text(Plan const &p) { return "global-before " + names[p.g] + ", before " + names[p.c] + ", action " + names[p.a] + ", after " + names[p.cp] + ", global-after " + names[p.gp]; }
static void invoke(seq::Ctx &x, Plan p, unsigned posts, strs const &args, int sign = 1) {
  builtins();
  string t;
  App r;
  auto log = [&](string const &who, cmdr::opt::cmd const &k, std::vector<std::string> const &rem) { t += who + "(" + k.title_long() + ":" + show(strs(rem.begin(), rem.end())) + ") "; };
  r.dress = [&](cmdr::opt::sub_cmd &s, string const &me) {
    if (me == "work") {
      if (p.c) s.on_pre_invoke([&](auto const &k, auto const &rem) { log("before", k, rem); return act(p.c, sign * 12); });
      if (p.a) s.on_invoke([&](auto const &k, auto const &rem) { log("action", k, rem); return act(p.a, sign * -13); });
      if (p.cp) s.on_post_invoke([&](auto const &k, auto const &rem) { log("after", k, rem); return act(p.cp, sign * 31); });
    } else {
      s.on_pre_invoke([&](auto const &k, auto const &rem) { log("WRONG-before", k, rem); return 0; });
      s.on_invoke([&](auto const &k, auto const &rem) { log("WRONG-action", k, rem); return 0; });
      s.on_post_invoke([&](auto const &k, auto const &rem) { log("WRONG-after", k, rem); return 0; });
    }
  };
  C tree;
  tree << f("flag", "f");
  C work = c("work", "w"), other = c("other", "o");
  work.no_action = other.no_action = true;
  C up = c("up", "u");
  up << work << other;
  tree << up << other;
  up.no_action = true;
  // the command is "up.work": give the dress its last part
  auto dress = r.dress;
  r.dress    = [=](cmdr::opt::sub_cmd &s, string const &me) { dress(s, me == "up.work" ? "work" : me); };
  r.define(tree);
  if (p.g) r.app->set_global_pre_invoke_handler([&](auto const &k, auto const &rem) { log("GLOBAL-BEFORE", k, rem); return act(p.g, sign * 11); });
  if (p.gp) r.app->set_global_post_invoke_handler([&](auto const &k, auto const &rem) { log("GLOBAL-AFTER", k, rem); return act(p.gp, sign * 32); });
  r.app->set_global_on_command_not_hooked([&](auto const &k, auto const &rem) { log("unhooked", k, rem); return 21; });
  for (unsigned i = 0; i < posts; i++) r.app->set_global_on_post_run_handlers([&, i](cmdr::app const &) { t += "post-run" + to_string(i) + " "; });
  strs a{"up", "-f", "w"};
  a.insert(a.end(), args.begin(), args.end());
  r.run(a);
  // the model
  string with = "(work:" + show(args) + ") ", want;
  int rc = 0, ex = 0;
  if (p.g) { want += "GLOBAL-BEFORE" + with; if (p.g == 2) rc = sign * 11; if (p.g > 2) ex = p.g; }
  if (!rc && !ex && p.c) { want += "before" + with; if (p.c == 2) rc = sign * 12; if (p.c > 2) ex = p.c; }
  if (!rc && !ex) {
    if (p.a) { want += "action" + with; if (p.a == 2) rc = sign * -13; if (p.a > 2) ex = p.a; }
    else { want += "unhooked" + with; rc = 21; }
  }
  if (p.cp) { want += "after" + with; if (p.cp > 2 && !ex) ex = p.cp; }
  if (p.gp) { want += "GLOBAL-AFTER" + with; if (p.gp > 2 && !ex) ex = p.gp; }
  for (unsigned i = 0; i < posts; i++) want += "post-run" + to_string(i) + " ";
  string l = text(p) + " args " + show(args);
  x.step(5);
  x.interesting();
  x.outcome(want + to_string(rc) + "/" + to_string(ex));
  x.state(seq::fnv(want + to_string(rc) + "/" + to_string(ex)));
  x.eq("calls", l + ": calls", t, want);
  string res = ex == 0 ? to_string(rc) : ex == 3 || ex == 6 ? "-1" : ex == 4 ? "other" : "version";
  string got = r.thrown.empty() ? to_string(r.rc) : r.thrown;
  if (res == "version") { res = "0"; x.check("version", l + ": the version was requested, printed: " + r.out, r.out.find("1.2.3") != string::npos); }
  x.eq("result", l + ": result", got, res);
  if (ex == 3) x.check("message", l + ": no message about the exception: " + r.err + r.out, (r.err + r.out).find("planned") != string::npos);
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  sp.push_back({"callbacks", plans, [](uint64_t i, seq::Ctx &x) { invoke(x, plan(i), (unsigned) (i % 3), {}); }, [](uint64_t i) { return text(plan(i)); }});
  static vector<strs> const tails{{"a"}, {"a", "b c", ""}, {"--", "-f", "--nope"}, {"x", "-f", "y"}};
  if (T) for (size_t k = 0; k < tails.size(); k++) sp.push_back({"callbacks-args-" + to_string(k), plans, [k](uint64_t i, seq::Ctx &x) {
    strs a = tails[k];
    (void) a;
    invoke(x, plan(i), 1, k == 0 ? strs{"a"} : k == 1 ? strs{"a", "b c", ""} : k == 2 ? strs{"w", "up"} : strs{"x", "y", "z"}); }, [](uint64_t i) { return text(plan(i)); }});
  else sp.push_back({"callbacks-args", 7 * 7 * 7, [](uint64_t i, seq::Ctx &x) { auto p = plan(i); p.cp = (int) (i % 7); p.gp = (int) (i / 7 % 7); invoke(x, p, 1, {"a", "b c", ""}); }, [](uint64_t i) { return text(plan(i)); }});
  // the same with negative results where they were positive
  auto neg = [](uint64_t i) { seq::Digits d(i); auto three = [&] { auto k = (int) d.take(4); return k == 3 ? 3 : k; }; Plan p; p.g = three(); p.c = three(); p.a = three(); p.cp = three(); p.gp = three(); return p; };
  sp.push_back({"negative", 1024, [=](uint64_t i, seq::Ctx &x) { invoke(x, neg(i), 1, {"a"}, -1); }, [=](uint64_t i) { return text(neg(i)) + ", results negated"; }});
  // post-run callbacks run once after every run, whatever it was
  static vector<strs> const lines{{}, {"ok"}, {"five"}, {"throw"}, {"throw-int"}, {"biz"}, {"nope"}, {"--nope"}, {"-Q"}, {"ok", "--nope"}, {"need"}, {"need", "-x"}, {"up"}, {"up", "nope"},
      {"--help"}, {"ok", "--help"}, {"--version"}, {"ok", "-V"}, {"version"}, {"help"}, {"--build-info"}, {"ok", "--tree"}, {"ok", "-n", "zz"}, {"ok", "--", "x"}, {""}, {"ok", "~~debug"}};
  auto pos = [](uint64_t i) { seq::Digits d(i); auto l = d.take(lines.size()); auto m = d.take(lines.size()); auto n = d.take(4); auto c = d.take(2); return std::array<uint64_t, 4>{l, m, n, c}; };
  sp.push_back({"post-run", lines.size() * lines.size() * 4 * 2, [=](uint64_t i, seq::Ctx &x) {
                  auto q = pos(i);
                  builtins();
                  App r;
                  int post[4]{}, before = 0, after = 0, actions = 0;
                  string order;
                  r.dress = [&](cmdr::opt::sub_cmd &s, string const &me) {
                    if (me == "up") return;
                    s.on_invoke([&, me](auto const &, auto const &) -> int {
                      actions++;
                      if (me == "five") return 5;
                      if (me == "throw") throw std::runtime_error("planned");
                      if (me == "throw-int") throw 42;
                      if (me == "biz") throw Biz();
                      return 0;
                    });
                  };
                  C t;
                  for (auto n: {"ok", "five", "throw", "throw-int", "biz"}) { C k = c(n); k.no_action = true; k << f("num", "n").of('i', "1"); t << k; }
                  C need = c("need"), up = c("up"), sub = c("sub");
                  need.no_action = up.no_action = sub.no_action = true;
                  t << (need << f("must", "x").required()) << (up << sub);
                  r.define(t);
                  r.app->set_global_pre_invoke_handler([&](auto const &, auto const &) { before++; return 0; });
                  r.app->set_global_post_invoke_handler([&](auto const &, auto const &) { after++; return 0; });
                  for (unsigned k = 0; k < q[2]; k++) r.app->set_global_on_post_run_handlers([&, k](cmdr::app const &) { post[k]++; order += to_string(k); });
                  if (q[3]) r.app->set_on_handle_exception_ptr([](std::exception_ptr const &) {});
                  string l;
                  for (auto w: {q[0], q[1]}) {
                    l += cmdline(lines[w]) + "; ";
                    memset(post, 0, sizeof post);
                    order.clear();
                    before = after = actions = 0;
                    r.run(lines[w]);
                    x.step();
                    string want = string("012").substr(0, q[2]);
                    x.eq("post-run", l + "post-run callbacks called", order, want);
                    x.check("hooks", l + "before and after hooks: " + to_string(before) + " and " + to_string(after), before == after && before <= 1 && actions <= before);
                  }
                  x.interesting();
                  x.outcome(l + to_string(q[2]));
                }, [=](uint64_t i) { auto q = pos(i); return cmdline(lines[q[0]]) + "; " + cmdline(lines[q[1]]) + " with " + to_string(q[2]) + " post-run callbacks"; }});
  return seq::run(argc, argv, "C08", sp, "all 16807 assignments of {absent, 0, non-zero, std exception, other exception, version request, cmdr error} to the five callbacks; 0-3 post-run callbacks after all pairs of 26 kinds of runs; call trace, arguments and result compared");
}
