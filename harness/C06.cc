// C06 required flags: every subset of them given by every spelling or by the environment, on every command
// KIND: fast
#include "cli.hh"
using namespace cli;
// the required flags are those of `mask`: 2 on the root, 2 on "server", 2 on "server start", 1 on "client"
static C tree(unsigned mask) {
  auto rq = [&](F x, int bit) { x.req = mask >> bit & 1; return x; };
  C t;
  t << rq(f("token", "k").al("key").of('s', "").ev("Z_TOKEN").ev("Z_KEY"), 0) << rq(f("agree", "a").ev("Z_AGREE"), 1) << f("free", "f").ev("Z_FREE");
  t << (c("server", "s") << rq(f("port", "p").of('i', "80").ev("Z_PORT"), 2) << rq(f("tls", "t"), 3)
                         << (c("start", "st") << rq(f("name", "n").of('s', "x").ev("Z_NAME"), 4) << rq(f("fast", "F").of('b', "true"), 5) << f("word", "w").of('s', "-"))
                         << c("stop", "so"));
  t << (c("client", "c") << rq(f("host", "H").of('s', "h").ev("Z_HOST"), 6));
  return t;
}
struct Given { strs args; std::map<string, string> env; };
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  // ways to give each flag; the first is: not given
  vector<vector<Given>> ways{
      {{}, {{"--token=t"}, {}}, {{"--key", "t"}, {}}, {{"-kt"}, {}}, {{}, {{"Z_TOKEN", "e"}}}, {{}, {{"Z_KEY", "e"}}}},
      {{}, {{"-a"}, {}}, {{"--agree-"}, {}}, {{}, {{"Z_AGREE", "1"}}}},
      {{}, {{"--port=1"}, {}}, {{"-p", "2"}, {}}, {{}, {{"Z_PORT", "3"}}}, {{}, {{"Z_FREE", "1"}}}},
      {{}, {{"-t"}, {}}, {{"--tls+"}, {}}},
      {{}, {{"-nx"}, {}}, {{}, {{"Z_NAME", "q"}}}},
      {{}, {{"-F-"}, {}}, {{"--fast"}, {}}},
      {{}, {{"-H", "z"}, {}}, {{}, {{"Z_HOST", "z"}}}},
  };
  strs const commands[]{{"server", "start"}, {"s", "stop"}, {"client"}, {"server"}, {}};
  std::vector<unsigned> const of_command[]{{0, 1, 2, 3, 4, 5}, {0, 1, 2, 3}, {0, 1, 6}, {0, 1, 2, 3}, {0, 1}};
  for (int cm = 0; cm < 5; cm++) {
    auto used  = of_command[cm];
    uint64_t n = 128;
    for (auto u: used) n *= T ? ways[u].size() : std::min<size_t>(ways[u].size(), cm == 0 ? 2 : 4);
    auto line = [=](uint64_t i, Given &g) {
      seq::Digits d(i);
      unsigned mask = (unsigned) d.take(128);
      g.args        = commands[cm];
      for (auto u: used) {
        // quick: not given, or one spelling of it that rotates with the other digits, so that every spelling occurs
        auto k        = d.take(T ? ways[u].size() : std::min<size_t>(ways[u].size(), cm == 0 ? 2 : 4));
        if (!T && cm == 0 && k) k = 1 + (i / 3 + u) % (ways[u].size() - 1);
        auto const &w = ways[u][k];
        g.args.insert(g.args.end(), w.args.begin(), w.args.end());
        g.env.insert(w.env.begin(), w.env.end());
      }
      return mask;
    };
    auto text = [=](uint64_t i) { Given g; auto m = line(i, g); string s = "required=" + to_string(m) + " "; for (auto &e: g.env) s += e.first + "=" + e.second + " "; return s + cmdline(g.args); };
    sp.push_back({"command-" + to_string(cm), n, [=](uint64_t i, seq::Ctx &x) {
                    Given g;
                    unsigned mask = line(i, g);
                    auto t = tree(mask);
                    string calls;
                    standard(x, t, g.args, [&](App &r, Model &m) {
                      r.env = m.env = g.env;
                      r.app->set_global_pre_invoke_handler([&](auto const &, auto const &) { calls += "P"; return 0; });
                      r.app->set_global_post_invoke_handler([&](auto const &, auto const &) { calls += "Q"; return 0; });
                    }, [&](App &, Model &m) {
                      x.check("hooks", text(i) + ": hooks called: " + calls, calls == (m.end == Model::Action ? "PQ" : ""));
                    });
                  }, text});
  }
  // an application that asked for the exception
  auto place = [=](uint64_t i) { seq::Digits d(i); auto mask = d.take(128); Given g; g.args = commands[d.take(5)]; if (d.take(2)) g.args.push_back("-kx"); if (d.take(2)) g.args.push_back("-a"); return std::make_pair(mask, g); };
  sp.push_back({"exception-wanted", 128 * 5 * 4, [=](uint64_t i, seq::Ctx &x) {
                  auto p = place(i);
                  auto t = tree((unsigned) p.first);
                  builtins();
                  App r;
                  Model m(t);
                  r.define(t);
                  r.app->set_no_catch_cmdr_biz_error(true);
                  m.run(p.second.args);
                  r.run(p.second.args);
                  r.app->set_no_catch_cmdr_biz_error(false); // a process-wide setting
                  x.step(1);
                  x.interesting();
                  string l = "required=" + to_string(p.first) + cmdline(p.second.args);
                  x.outcome(l);
                  if (m.end == Model::Required) {
                    x.check("exception", l + ": a required flag is missing but run() returned " + to_string(r.rc) + " " + r.thrown, r.thrown.compare(0, 3, "biz") == 0);
                    x.check("actions", l + ": the action ran", r.invs.empty());
                  } else {
                    x.check("exception", l + ": run() threw " + r.thrown, r.thrown.empty());
                    x.check("actions", l + ": actions run: " + to_string(r.invs.size()), r.invs.size() == (m.end == Model::Action));
                  }
                }, [=](uint64_t i) { auto p = place(i); return "required=" + to_string(p.first) + " " + cmdline(p.second.args); }});
  // the request stands anywhere among flags and commands
  strs words{"server", "start", "-p1", "-a", "-kx", "-nz", "--tls", "client", "-Hq", "free", "--"};
  for (unsigned mask: {0x1u, 0x2u, 0x4u, 0x8u, 0x10u, 0x40u, 0x55u, 0x2au}) {
    auto t = tree(mask);
    sp.push_back(space("lines-" + to_string(mask), t, {words, 0, T ? 5u : mask == 0x55 ? 4u : 3u}));
  }
  // required members of a toggle group
  C g;
  g << f("red", "r").toggle("color").required() << f("green", "g").toggle("color") << (c("do") << f("x", "x").toggle("way").required() << f("y", "y").of('b', "true").toggle("way").required());
  sp.push_back(space("toggles", g, {{"do", "-r", "-g", "-x", "-y", "--red-", "--", "v"}, 0, T ? 5u : 4u}));
  return seq::run(argc, argv, "C06", sp, "all 128 choices of required flags on a three-level tree x every subset of them given by a spelling or by an environment variable x every command, and every line over an alphabet; actions, hooks and result compared with the model");
}
