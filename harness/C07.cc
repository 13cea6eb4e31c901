// C07 precedence: every combination of command line, declared and automatic environment variables, external
// configuration and default, for flags of every value type on two levels
// KIND: fast
#include "cli.hh"
using namespace cli;
struct Ty { char t; strs v; }; // values: default, external, automatic variable, first, second variable, command line
static vector<Ty> const types{
    {'i', {"10", "20", "30", "40", "-50", "60"}}, {'u', {"1", "2", "3", "4", "5", "4294967295"}}, {'l', {"1", "20000000000", "-3", "4", "5", "6"}},
    {'s', {"de fault", "ex", "au to", "first", "second=2", "line"}}, {'d', {"1.5", "2.5", "-3.25", "4", "5e2", "0.125"}},
    {'b', {"false", "true", "false", "true", "false", "true"}}, {'b', {"true", "false", "true", "false", "true", "false"}},
    {'i', {"0", "0", "7", "0", "7", "0"}}, {'s', {"", "x", "", "x", "", "y"}}, {'b', {"false", "true", "no", "on", "0", "true"}}, {'b', {"true", "true", "off", "yes", "1", "true"}}};
static void external(cmdr::app &a, string const &key, char t, string const &v) {
  auto const below = key.substr(4); // below "app."
  auto k = below.c_str();
  switch (t) {
    case 'b': a.set(k, v == "true"); break;
    case 'i': a.set(k, (int) atoi(v.c_str())); break;
    case 'u': a.set(k, (unsigned) strtoul(v.c_str(), nullptr, 10)); break;
    case 'l': a.set(k, (long) atol(v.c_str())); break;
    case 'd': a.set(k, atof(v.c_str())); break;
    default: a.set(k, string(v));
  }
}
struct Case { C tree; std::map<string, string> env, ext; strs args; string text; };
// one flag on the root or on a sub-command; bits: 1 external, 2 automatic, 4 first, 8 second; line: 0 none .. spellings
static void give(Case &k, C &at, string const &key, string const &L, string const &S, Ty const &y, unsigned bits, unsigned line, strs &args, string const &pre) {
  at << f(L, S).al(L + "-too").of(y.t, y.v[0]).ev(pre + "ONE").ev(pre + "TWO");
  string au = key;
  for (auto &ch: au) ch = ch == '.' || ch == '-' ? '_' : (char) toupper((unsigned char) ch);
  if (bits & 1) k.ext[key] = y.v[1];
  if (bits & 2) k.env[au] = y.v[2];
  if (bits & 4) k.env[pre + "ONE"] = y.v[3];
  if (bits & 8) k.env[pre + "TWO"] = y.v[4];
  string const &v = y.v[5];
  if (y.t == 'b') {
    string sg = v == "true" ? "" : "-";
    if (line == 1) args.push_back("--" + L + sg);
    if (line == 2) args.push_back("-" + S + sg);
    if (line == 3) { args.push_back("-" + S + (v == "true" ? "-" : "+")); args.push_back("--" + L + "-too" + sg); }
  } else {
    if (line == 1) args.push_back("--" + L + "=" + v);
    if (line == 2) { args.push_back("-" + S); args.push_back(v); }
    if (line == 3) { args.push_back("--" + L + "-too"); args.push_back(y.v[1]); args.push_back("-" + S + v); }
  }
  k.text += key + ":" + y.t + " sources=" + to_string(bits) + " line=" + to_string(line) + " ";
}
static void check(seq::Ctx &x, Case const &k) {
  x.outcome(k.text);
  standard(x, k.tree, k.args, [&](App &r, Model &m) {
    r.env = m.env = k.env;
    m.ext = k.ext;
    for (auto const &e: k.ext) {
      char t = m.flag(m.root, e.first)->d->t;
      r.app->set_global_on_loading_externals([e, t](cmdr::app &a) { external(a, e.first, t, e.second); });
    }
  });
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  // any number of declared variables, each given or not
  auto many = [](uint64_t i) {
    seq::Digits d(i);
    auto const &y = types[d.take(4)];
    unsigned bits = (unsigned) d.take(32), line = (unsigned) d.take(2), n = (unsigned) d.take(4) + 2;
    Case k;
    F x = f("port", "p").of(y.t, y.v[0]);
    for (unsigned j = 0; j < n; j++) {
      x.ev("Z_" + to_string(n - j));
      if (bits >> j & 1) k.env["Z_" + to_string(n - j)] = y.v[1 + j % 4];
    }
    k.tree << c("server", "s");
    k.tree << x;
    k.args = {"server"};
    if (line) k.args.push_back("--port=" + y.v[5]);
    k.text = "variables " + to_string(n) + " given " + to_string(bits) + " type " + y.t + " line " + to_string(line);
    return k;
  };
  sp.push_back({"many-variables", 4 * 32 * 2 * 4, [=](uint64_t i, seq::Ctx &x) { check(x, many(i)); }, [=](uint64_t i) { return many(i).text; }});
  auto one = [](uint64_t i) {
    seq::Digits d(i);
    auto const &y = types[d.take(types.size())];
    unsigned bits = (unsigned) d.take(16), line = (unsigned) d.take(4), where = (unsigned) d.take(3);
    Case k;
    C sub = c("server", "s"), leaf = c("start", "t");
    strs args;
    C &at = where == 0 ? k.tree : where == 1 ? sub : leaf;
    give(k, at, where == 0 ? "app.cli.the-port" : where == 1 ? "app.cli.server.the-port" : "app.cli.server.start.the-port", "the-port", "p", y, bits, line, args, "Z_");
    sub << leaf << c("stop", "o");
    k.tree << sub << c("other", "x");
    k.args = {"server", "start"};
    k.args.insert(k.args.end(), args.begin(), args.end());
    return k;
  };
  sp.push_back({"one-flag", types.size() * 16 * 4 * 3, [=](uint64_t i, seq::Ctx &x) { check(x, one(i)); }, [=](uint64_t i) { return one(i).text; }});
  // two flags, all their combinations: no source of one leaks into the other
  auto two = [](uint64_t i) {
    seq::Digits d(i);
    auto const &y = types[d.take(types.size())], &z = types[d.take(4)];
    unsigned b1 = (unsigned) d.take(16), l1 = (unsigned) d.take(2), b2 = (unsigned) d.take(16), l2 = (unsigned) d.take(2);
    bool order = d.take(2);
    Case k;
    C sub = c("server", "s");
    strs a1, a2;
    give(k, k.tree, "app.cli.port", "port", "p", y, b1, l1, a1, "Z_");
    give(k, sub, "app.cli.server.port", "port", "q", z, b2, l2, a2, "Y_");
    k.tree << sub << c("other", "x");
    k.args = {"server"};
    if (order) { k.args.insert(k.args.begin(), a1.begin(), a1.end()); k.args.insert(k.args.end(), a2.begin(), a2.end()); }
    else { k.args.insert(k.args.end(), a1.begin(), a1.end()); k.args.insert(k.args.end(), a2.begin(), a2.end()); }
    // below "server" --port means its own flag, so the root's is given by its short title
    if (!order && l1 == 1) for (auto &w: k.args) if (w.compare(0, 6, "--port") == 0) { if (y.t == 'b') w = "-p" + w.substr(6); else w = "-p" + w.substr(7); break; }
    return k;
  };
  uint64_t n2 = types.size() * 4 * 16 * 2 * 16 * 2 * 2;
  uint64_t step = T ? 1 : 7;
  (void) step;
  sp.push_back({"two-flags", T ? n2 : n2 / 4 / 2, [=](uint64_t i, seq::Ctx &x) { check(x, two(T ? i : [&] { seq::Digits d(i); auto a = d.take(types.size()); return a + types.size() * ((a + i / 3) % 4 + 4 * d.v); }())); }, [=](uint64_t i) { return two(i).text; }});
  return seq::run(argc, argv, "C07", sp, "all 16 combinations of external value, automatic and two declared environment variables x given on the command line in 3 spellings or not x 11 typed flags x 3 levels, and pairs of flags; value, type and hit count compared with the model");
}
