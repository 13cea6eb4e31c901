// C15 the generated bash completion: what it offers for every path of enumerated command trees (run in a real bash), and which
// files every combination of the generator's options, given as flags or by the environment, writes, prints, removes or leaves alone
// KIND: fast
#include "cli.hh"
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <grp.h>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace cli;
namespace fs = std::filesystem;

// ---- the trees
static vector<C> cmd_kinds() {
  return {c("server", "s").al("service").about("the server"),
          (c("start-up", "") << f("in-start", "is")),
          c("launch", "la").al("go").al("run-it").about("starts, or restarts | resumes it"),
          c("secret", "x9").hidden().about("hidden"),
          c("grouped", "gr").group("Z Tools").about("x"),
          (c("deep", "dp") << (c("deeper", "dd").al("lower") << f("deepest", "ds").al("bottom").of('s', "v")))};
}
static vector<F> flag_kinds() {
  return {f("zoom", "w"), f("level", "").of('i', "3").about("sets, | changes the level"), f("dry-name", "dn").al("named").al("called").of('s', "t"),
          f("hush", "hu").hidden(), f("mode-a", "ma").toggle("mode"), f("listed", "li").group("Z Tools").ev("LISTED_ENV")};
}
static unsigned const NT = 6 * 6 * 7;
static C tree(unsigned i) {
  auto cs = cmd_kinds();
  auto fl = flag_kinds();
  C t;
  t << fl[i / 6 % 6];
  auto top = cs[i % 6];
  if (auto k = i / 36 % 7; k && k - 1 != i % 6) {
    auto sub = cs[k - 1];
    top << fl[(i / 6 + 1) % 6];
    top << sub;
  }
  t << top << c("zebra", "zb");
  return t;
}
// ---- this program as the application: prints what the application printed, nothing else
static int app_main(int argc, char **argv, unsigned t) {
  int out = dup(1), nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  static C const desc = tree(t); // the application keeps pointers to default texts
  App a;
  a.define(desc);
  a.run(strs(argv + 1, argv + argc));
  string s = a.out;
  for (size_t p = 0; p < s.size();) { auto n = write(out, s.data() + p, s.size() - p); if (n <= 0) break; p += (size_t) n; }
  (void) !write(2, a.err.data(), a.err.size());
  _exit(a.thrown.empty() ? a.rc & 255 : 99);
}
static string g_root;
static bool g_lowered;
struct Ran { int rc; string out, err; };
static string slurp(string const &p) { std::ifstream i(p); return {std::istreambuf_iterator<char>(i), {}}; }
// runs a program in `dir`, as nobody
static Ran spawn(string const &prog, strs const &args, string const &dir, std::map<string, string> const &env, string const &io) {
  pid_t p = fork();
  if (p == 0) {
    int o = open((io + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), e = open((io + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), n = open("/dev/null", O_RDONLY);
    dup2(n, 0); dup2(o, 1); dup2(e, 2);
    if (chdir(dir.c_str())) _exit(98);
    if (g_lowered && (setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534))) _exit(97);
    vector<string> ev;
    for (auto const &v: env) ev.push_back(v.first + "=" + v.second);
    vector<char *> av{(char *) prog.c_str()}, pv;
    for (auto const &x: args) av.push_back((char *) x.c_str());
    for (auto &x: ev) pv.push_back(x.data());
    av.push_back(nullptr); pv.push_back(nullptr);
    alarm(60);
    execve(prog.c_str(), av.data(), pv.data());
    _exit(96);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), slurp(io + ".out"), slurp(io + ".err")};
}
static string const mydir() {
  string d = g_root + "/w" + to_string(getpid());
  if (!fs::exists(d)) { fs::create_directories(d); (void) !chmod(d.c_str(), 0777); }
  return d;
}
static void fresh(string const &d) {
  if (d.compare(0, 8, "/tmp/ver") != 0) abort();
  std::error_code e;
  fs::permissions(d + "/home/.linuxbrew/etc/bash_completion.d", fs::perms::all, e);
  for (auto const &x: {"/cwd", "/home"}) {
    fs::remove_all(d + x, e);
    fs::create_directories(d + x);
    (void) !chmod((d + x).c_str(), 0777);
  }
}
static strs const EXES{"tool", "my-app", "a-b-c"};
static string safe(string s) { for (auto &ch: s) if (ch == '-') ch = '_'; return s; }
static string exe(unsigned k) { return g_root + "/bin/" + EXES[k]; }
static std::map<string, string> base_env(string const &d, unsigned t) {
  return {{"PATH", g_root + "/bin:/usr/bin:/bin"}, {"HOME", d + "/home"}, {"VERIF_C15", to_string(t)}, {"LC_ALL", "C"}, {"TZ", "UTC"}};
}
static void script_sound(seq::Ctx &x, string const &where, string const &script, string const &name, string const &ex) {
  x.check("placeholder", where + ": the script has an unfilled placeholder", script.find("%{") == string::npos && script.find("SAFE_APP_NAME") == string::npos);
  x.check("version", where + ": the script names another program or version", script.find(ex + " v1.2.3") != string::npos);
  x.check("function", where + ": no function _cmdr_cmd_" + safe(name), script.find("_cmdr_cmd_" + safe(name) + "()") != string::npos);
}
// ---- what a sourced script offers
static void offers(seq::Ctx &x, unsigned t, unsigned path_no, unsigned ex, bool after_flag) {
  C desc = tree(t);
  builtins();
  Model m(desc);
  // the paths of the tree, every command called by each of its names
  vector<std::pair<strs, Node *>> paths{{{}, &m.root}};
  for (size_t k = 0; k < paths.size(); k++) {
    auto at = paths[k];
    for (auto &s: at.second->subs) {
      if (s.d->no_action) continue; // the built-in ones
      strs names{s.d->L};
      if (!s.d->S.empty()) names.push_back(s.d->S);
      names.insert(names.end(), s.d->A.begin(), s.d->A.end());
      for (auto const &n: names) { auto p = at.first; p.push_back(n); paths.push_back({p, &s}); }
    }
  }
  if (path_no >= paths.size()) return;
  auto words = paths[path_no].first;
  Node *at   = paths[path_no].second;
  if (after_flag) words.push_back("-v");
  std::set<string> want;
  for (auto &s: at->subs) { want.insert(s.d->L); if (!s.d->S.empty()) want.insert(s.d->S); want.insert(s.d->A.begin(), s.d->A.end()); }
  for (Node *n = at; n; n = n->up)
    for (auto &y: n->flags) { want.insert("--" + y.d->L); if (!y.d->S.empty()) want.insert("-" + y.d->S); for (auto const &z: y.d->A) want.insert("--" + z); }
  auto d = mydir();
  fresh(d);
  string where = "tree " + to_string(t) + ", " + EXES[ex] + " " + cmdline(words);
  auto env = base_env(d, t);
  auto g = spawn(exe(ex), {"generate", "shell", "--bash", "--stdout", "--dry-run"}, d + "/cwd", env, d + "/gen");
  x.eq("result", where + ": result of generate shell", 0, g.rc);
  script_sound(x, where, g.out, EXES[ex], EXES[ex]);
  std::ofstream(d + "/script") << g.out;
  strs typed{"", "-", "--", "s", "l", "--d", "--z", "ze", "zebra", "--no-such", "qq", "d"};
  std::ofstream dr(d + "/driver");
  dr << "_get_comp_words_by_ref() { cur=${COMP_WORDS[COMP_CWORD]}; prev=${COMP_WORDS[COMP_CWORD-1]}; words=(\"${COMP_WORDS[@]}\"); }\n"
     << "source " << d << "/script || exit 3\n"
     << "fn=$(complete -p " << EXES[ex] << " | sed -n 's/.*-F \\([^ ]*\\).*/\\1/p')\necho \"fn=$fn\"\n";
  for (auto const &w: typed) {
    dr << "COMP_WORDS=(" << EXES[ex];
    for (auto const &p: words) dr << ' ' << p;
    dr << " '" << w << "'); COMP_CWORD=" << words.size() + 1 << "; COMPREPLY=(); $fn; printf '%s\\n' \"typed\" \"${COMPREPLY[@]}\"\n";
  }
  dr.close();
  auto b = spawn("/bin/bash", {"--norc", "--noprofile", d + "/driver"}, d + "/cwd", env, d + "/bash");
  x.eq("sourced", where + ": result of the shell that sources the script (" + b.err.substr(0, 200) + ")", 0, b.rc);
  x.check("shell-errors", where + ": the shell complains: " + b.err.substr(0, 300), b.err.empty());
  std::istringstream is(b.out);
  string l;
  std::getline(is, l);
  x.eq("registered", where + ": the function registered for " + EXES[ex], "fn=_cmdr_cmd_" + safe(EXES[ex]), l);
  size_t k = 0;
  std::set<string> got;
  auto done = [&] {
    if (k == 0 || k > typed.size()) return;
    std::set<string> w;
    for (auto const &n: want) if (n.compare(0, typed[k - 1].size(), typed[k - 1]) == 0) w.insert(n);
    string miss, extra;
    for (auto const &n: w) if (!got.count(n)) miss += " " + n;
    for (auto const &n: got) if (!w.count(n)) extra += " " + n;
    x.step();
    x.check("not-offered", where + " <" + typed[k - 1] + "TAB>: not offered:" + miss, miss.empty());
    x.check("offered", where + " <" + typed[k - 1] + "TAB>: wrongly offered:" + extra, extra.empty());
  };
  while (std::getline(is, l)) {
    if (l == "typed") { done(); k++; got.clear(); }
    else if (!l.empty()) got.insert(l);
  }
  done();
  x.eq("answers", where + ": queries answered", typed.size(), k);
  x.interesting();
  x.state(seq::fnv(where));
  x.outcome(to_string(want.size()));
}
// ---- files
struct Opt { unsigned shell, dry, out, bet, drop, name, cwd, home, ex; };
static strs const SHELLS{"--bash", "(SHELL=/bin/bash)", "--auto (SHELL=/usr/bin/bash)", "--zsh", "--fish", "(SHELL=/bin/zsh)", "(no SHELL)"};
static uint64_t nopts() { return 7ull * 3 * 3 * 3 * 2 * 3 * 2 * 4 * EXES.size(); }
static Opt opt_at(uint64_t i) {
  seq::Digits d(i);
  Opt o;
  o.shell = (unsigned) d.take(7); o.dry = (unsigned) d.take(3); o.out = (unsigned) d.take(3); o.bet = (unsigned) d.take(3); o.drop = (unsigned) d.take(2);
  o.name = (unsigned) d.take(3); o.cwd = (unsigned) d.take(2); o.home = (unsigned) d.take(4); o.ex = (unsigned) d.take(EXES.size());
  return o;
}
static strs const NAMES{"", "other", "x-y-z"};
static string opt_text(Opt const &o) {
  string s = EXES[o.ex] + " generate shell " + SHELLS[o.shell];
  auto how = [&](unsigned k, string f, string e) { if (k) s += k == 1 ? " " + f : " (" + e + "=1)"; };
  how(o.dry, "--dry-run", "DRY_RUN"); how(o.out, "--stdout", "STDOUT"); how(o.bet, "--feel-like", "FEEL_LIKE");
  if (o.drop) s += " --drop";
  if (o.name) s += " --name " + NAMES[o.name];
  return s + (o.cwd ? ", file there" : "") + (o.home == 0 ? "" : o.home == 1 ? ", completion directory" : o.home == 2 ? ", completion directory with the file" : ", completion directory read-only");
}
static std::map<string, string> files(string const &d) {
  std::map<string, string> m;
  for (auto const &x: {"/cwd", "/home"})
    for (auto const &e: fs::recursive_directory_iterator(d + x)) if (e.is_regular_file()) m[e.path().string().substr(d.size())] = slurp(e.path());
  return m;
}
static void effects(seq::Ctx &x, uint64_t i) {
  auto o = opt_at(i);
  if (!g_lowered && (o.bet || o.home == 3)) return; // only files of an unprivileged user are safe then
  auto d = mydir();
  fresh(d);
  string where = opt_text(o), fn = safe(o.name ? NAMES[o.name] : EXES[o.ex]), bd = d + "/home/.linuxbrew/etc/bash_completion.d";
  if (o.home) fs::create_directories(bd);
  if (o.home == 2) std::ofstream(bd + "/" + fn) << "old";
  if (o.home) std::ofstream(bd + "/neighbour") << "n1";
  if (o.cwd) std::ofstream(d + "/cwd/" + fn) << "old";
  std::ofstream(d + "/cwd/neighbour") << "n2";
  for (auto const &e: fs::recursive_directory_iterator(d + "/cwd")) (void) !chmod(e.path().c_str(), 0666);
  for (auto const &e: fs::recursive_directory_iterator(d + "/home")) (void) !chmod(e.path().c_str(), e.is_directory() ? 0777 : 0666);
  if (o.home == 3) (void) !chmod(bd.c_str(), 0555);
  auto want = files(d);
  auto env = base_env(d, 0);
  strs args{"generate", "shell"};
  if (o.name) { args.push_back("--name"); args.push_back(NAMES[o.name]); }
  strs canon = args;
  canon.insert(canon.end(), {"--bash", "--stdout", "--dry-run"});
  switch (o.shell) { case 0: args.push_back("--bash"); break; case 1: env["SHELL"] = "/bin/bash"; break; case 2: env["SHELL"] = "/usr/bin/bash"; args.push_back("--auto"); break;
    case 3: args.push_back("--zsh"); break; case 4: args.push_back("--fish"); break; case 5: env["SHELL"] = "/bin/zsh"; break; }
  auto how = [&](unsigned k, string fl, string ev) { if (k == 1) args.push_back(fl); if (k == 2) env[ev] = "1"; };
  how(o.dry, "--dry-run", "DRY_RUN"); how(o.out, "--stdout", "STDOUT"); how(o.bet, "--feel-like", "FEEL_LIKE");
  if (o.drop) args.push_back("--drop");
  auto ref = spawn(exe(o.ex), canon, d + "/cwd", base_env(d, 0), d + "/ref");
  string script = ref.out;
  script_sound(x, where, script, o.name ? NAMES[o.name] : EXES[o.ex], EXES[o.ex]);
  x.check("dry-run", where + ": printing the script changed files", files(d) == want);
  auto r = spawn(exe(o.ex), args, d + "/cwd", env, d + "/run");
  bool bash = o.shell < 3;
  string out;
  string bfile = "/home/.linuxbrew/etc/bash_completion.d/" + fn, cfile = "/cwd/" + fn, put = script;
  if (!put.empty()) put.pop_back(); // printed as a line
  if (bash && !o.dry) {
    if (o.drop) { if (o.bet && o.home == 2) want.erase(bfile); else want.erase(cfile); }
    else if (o.bet && (o.home == 1 || o.home == 2)) want[bfile] = put;
    else want[cfile] = put;
  }
  if (bash && o.out && !o.drop) out = script;
  auto got = files(d);
  for (auto const &w: want) {
    auto it = got.find(w.first);
    if (it == got.end()) x.fail("missing", where + ": " + w.first + " is missing");
    else x.check("content", where + ": " + w.first + " holds " + (it->second == "old" || it->second.size() < 40 ? it->second : "a script of " + to_string(it->second.size()) + " bytes") + ", expected " + (w.second.size() < 40 ? w.second : "the script of " + to_string(w.second.size()) + " bytes"), it->second == w.second);
  }
  for (auto const &g: got) x.check("unexpected-file", where + ": " + g.first + " was " + (want.count(g.first) ? "" : "left or created"), want.count(g.first));
  x.eq("result", where + ": result", 0, r.rc);
  if (!(o.drop && o.dry)) x.check("printed", where + ": printed " + to_string(r.out.size()) + " bytes, expected " + to_string(out.size()), r.out == out);
  if (!bash) x.check("unsupported", where + ": says nothing about the shell it does not support: " + r.err.substr(0, 200), r.err.find("Not implemented") != string::npos);
  x.step();
  x.interesting();
  x.state(seq::fnv(where));
  x.outcome(to_string(got.size()) + (out.empty() ? "" : "printed"));
}
int main(int argc, char **argv) {
  if (auto *t = getenv("VERIF_C15")) return app_main(argc, argv, (unsigned) atoi(t));
  bool T = seq::is_thorough(argc, argv);
  char root[] = "/tmp/verif.c15.XXXXXX";
  if (!mkdtemp(root)) return 2;
  g_root = fs::canonical(root).string();
  (void) !chmod(g_root.c_str(), 0755);
  fs::create_directories(g_root + "/bin");
  for (unsigned k = 0; k < EXES.size(); k++) { fs::copy_file("/proc/self/exe", exe(k)); (void) !chmod(exe(k).c_str(), 0755); }
  { pid_t p = fork(); if (p == 0) _exit(setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)); int st = 1; waitpid(p, &st, 0); g_lowered = st == 0; }
  umask(0);
  vector<seq::Space> sp;
  unsigned const NP = 24;
  unsigned nt = T ? NT : NT / 2, ne = T ? 3 : 1;
  sp.push_back({"offers", (uint64_t) nt * NP * 2 * ne, [=](uint64_t i, seq::Ctx &x) {
                  seq::Digits d(i);
                  auto p = (unsigned) d.take(NP), fl = (unsigned) d.take(2), t = (unsigned) d.take(nt) * (T ? 1 : 2);
                  if (!T) t = (t + t / 12 % 2) % NT;
                  if (fl && !T && t % 3) return;
                  offers(x, t, p, T ? (unsigned) d.v : t % 3, fl);
                }, [=](uint64_t i) { return "tree and path " + to_string(i); }});
  uint64_t n = nopts();
  sp.push_back({"effects", n, [=](uint64_t i, seq::Ctx &x) { if (T || opt_at(i).shell == 0 || i % 11 == 0) effects(x, i); }, [=](uint64_t i) { return opt_text(opt_at(i)); }});
  int rc = seq::run(argc, argv, "C15", sp, "the script of every tree over kinds of commands and flags, sourced in bash and asked at every path of the tree; every combination of the generator's options as flags or environment variables over initial states of the directories");
  std::error_code e;
  for (auto const &w: fs::directory_iterator(g_root)) fs::permissions(w.path() / "home/.linuxbrew/etc/bash_completion.d", fs::perms::all, e);
  fs::remove_all(g_root, e);
  return rc;
}
