// D12 running child processes: output sizes around buffer boundaries x exit codes x command shapes and lengths x sequences of runs x ways to read
// KIND: seq
#include "seq.hh"
#include <csignal>
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_process.hh>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/time.h>
using namespace std;
using cmdr::process::exec;

static string g_root, g_dir;
static const size_t SZ[] = {0, 1, 2, 127, 128, 129, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131073, 300000};
static constexpr int NS = 20;
static string content(int size, int kind) {
  string s; size_t n = SZ[size];
  s.reserve(n);
  for (size_t i = 0; i < n; i++) switch (kind) {
    case 0: s += char('a' + (i * 7 + i / 53) % 26); break;
    case 1: s += char((i * 37 + i / 251) % 256); break; // all byte values, null characters and 0xFF
    case 2: s += i % 5 == 4 || i + 1 == n ? '\n' : char('A' + i % 23); break;
    default: s += i % 2 ? '\xFF' : '\0'; break;
    }
  return s;
}
static string const &bytes_of(int size, int kind) { static string v[NS][4]; static bool have[NS][4]; if (!have[size][kind]) { have[size][kind] = true; v[size][kind] = content(size, kind); } return v[size][kind]; }
static string file_of(int size, int kind) {
  string p = g_dir + "/in." + to_string(size) + "." + to_string(kind);
  struct stat st;
  if (::stat(p.c_str(), &st) != 0) { ofstream o(p, ios::binary); o << bytes_of(size, kind); }
  return p;
}
static void per_process() {
  static pid_t owner = 0;
  if (owner == getpid()) return;
  owner = getpid();
  g_dir = g_root + "/w" + to_string(getpid());
  mkdir(g_dir.c_str(), 0700);
  string t = g_dir + "/tmp with blanks"; // the directory for temporary files
  mkdir(t.c_str(), 0700);
  setenv("TMPDIR", t.c_str(), 1);
}
static string brief(string const &s) { string r; for (unsigned char c: s.substr(0, 30)) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += char(c); } return to_string(s.size()) + " bytes, hash " + to_string(seq::fnv(s)) + ": " + r; }
static string slurp(istream &in, int how) {
  switch (how) {
  case 0: { ostringstream o; o << in.rdbuf(); return o.str(); }
  case 1: { string s; int c; while ((c = in.get()) != EOF) s += char(c); return s; }
  case 2: { string s; char b[100]; while (in.read(b, sizeof b) || in.gcount()) s.append(b, size_t(in.gcount())); return s; }
  case 3: return string(istreambuf_iterator<char>(in), {});
  default: { string s, l; while (getline(in, l)) { s += l; if (!in.eof()) s += '\n'; } return s; }
  }
}
static string out_of(exec &e, int how) {
  if (how == 5) { ostringstream o; o << e; return o.str(); } // the documented way
  return slurp(e, how);
}
static size_t left_files() { // temporary files left behind
  size_t n = 0;
  error_code ec;
  for (auto &f: filesystem::recursive_directory_iterator(g_dir + "/tmp with blanks", ec)) n += f.is_regular_file();
  return n;
}
static size_t open_fds() { size_t n = 0; for (int fd = 0; fd < 64; fd++) n += fcntl(fd, F_GETFD) != -1; return n; }
static void expect(seq::Ctx &x, string const &d, exec &e, string const &out, string const &err, int rc, int how) {
  x.step(); x.interesting();
  x.eq("rc", d + ": exit status", rc, e.ret_code());
  x.eq("stdout", d + ": standard output", brief(out), brief(out_of(e, how)));
  if (!err.empty() || e.stderr_stream().is_open()) x.eq("stderr", d + ": standard error", brief(err), brief(slurp(e.stderr_stream(), how == 5 ? 0 : how)));
}
static void clean(seq::Ctx &x, size_t fds) {
  x.eq("files", "temporary files left behind", size_t(0), left_files());
  x.eq("fds", "open descriptors left behind", fds, open_fds());
}
static void size_case(seq::Ctx &x, int size, int kind, int rc, int how, bool err) {
  per_process();
  size_t fds = open_fds();
  string f = file_of(size, kind);
  string cmd = err ? "cat " + f + " >&2; exit " + to_string(rc) : "cat " + f + "; exit " + to_string(rc);
  { exec e(cmd.c_str()); expect(x, cmd, e, err ? "" : bytes_of(size, kind), err ? bytes_of(size, kind) : "", rc, how); }
  clean(x, fds);
  x.outcome(to_string(size) + "/" + to_string(rc));
}
// commands of every shape: what they print, what they complain, how they end
struct Shape { const char *cmd, *out, *err; int rc; };
static const Shape SHAPES[] = {
  {"echo a", "a\n", "", 0}, {"printf a", "a", "", 0}, {"true", "", "", 0}, {"false", "", "", 1}, {"exit 0", "", "", 0},
  {"echo a; echo b", "a\nb\n", "", 0}, {"echo a\necho b", "a\nb\n", "", 0}, {"echo a\necho b\n", "a\nb\n", "", 0}, {"echo a # comment", "a\n", "", 0}, {"echo a;", "a\n", "", 0},
  {"echo a && false", "a\n", "", 1}, {"false || echo b", "b\n", "", 0}, {"false && echo b", "", "", 1}, {"(echo a; exit 5)", "a\n", "", 5}, {"{ echo a; }", "a\n", "", 0},
  {"echo a >&2", "", "a\n", 0}, {"echo a >&2; echo b", "b\n", "a\n", 0}, {"echo a; echo b >&2", "a\n", "b\n", 0}, {"echo a >&2; echo b >&2; exit 9", "", "a\nb\n", 9},
  {"(echo a >&2); echo b", "b\n", "a\n", 0}, {"echo a | cat", "a\n", "", 0}, {"echo a >&2 | cat; echo c", "c\n", "a\n", 0}, {"echo ba | tr ab xy; exit 3", "yx\n", "", 3},
  {"cat <<X\nhere $((1+2))\nX\nexit 4", "here 3\n", "", 4}, {"echo a & wait", "a\n", "", 0}, {"sh -c 'echo a; echo b >&2; exit 6'", "a\n", "b\n", 6},
  {"echo 'a  b' \"c'd\" %s %d", "a  b c'd %s %d\n", "", 0}, {"printf '%%n%%s\\n'", "%n%s\n", "", 0}, {"for i in 1 2 3; do echo $i; echo e$i >&2; done; exit 7", "1\n2\n3\n", "e1\ne2\ne3\n", 7},
  {"echo a 2>/dev/null", "a\n", "", 0}, {"(echo a >&2) 2>&1", "a\n", "", 0}, {"echo a >&2 2>/dev/null", "", "a\n", 0}, {"exec sh -c 'exit 8'", "", "", 8}, {"", "", "", 0}, {" ", "", "", 0},
  {"kill -9 $$", "", "", 137}, {"echo a; kill -15 $$", "a\n", "", 143}, {"echo a; kill -1 $$; echo b", "a\n", "", 129}, {"echo e >&2; kill -10 $$", "", "e\n", 138}, {"sh -c 'kill -9 $$'; exit 2", "", "", 2},
};
static constexpr int NSH = sizeof SHAPES / sizeof *SHAPES;
static void shape_case(seq::Ctx &x, int k, int how) {
  per_process();
  size_t fds = open_fds();
  auto &s = SHAPES[k];
  { exec e(s.cmd);
    string err;
    x.step(); x.interesting();
    string d = string("'") + s.cmd + "'";
    x.eq("rc", d + ": exit status", s.rc, e.ret_code());
    x.eq("stdout", d + ": standard output", string(s.out), out_of(e, how));
    err = slurp(e.stderr_stream(), 0);
    if (k < 35) x.eq("stderr", d + ": standard error", string(s.err), err); // shells may report a killed child themselves
    else x.check("stderr", d + ": standard error starts with what the child wrote", err.rfind(s.err, 0) == 0);
  }
  clean(x, fds);
  x.outcome(s.cmd);
}
static void length_case(seq::Ctx &x, size_t len, int rc) { // a command of exactly len characters
  per_process();
  size_t fds = open_fds();
  string tail = "; echo \"$V\" | wc -c | tr -d ' '; echo end; exit " + to_string(rc);
  string cmd = "V=";
  if (len > cmd.size() + tail.size()) cmd += string(len - cmd.size() - tail.size(), 'x');
  size_t v = cmd.size() - 2;
  cmd += tail;
  { exec e(cmd.c_str()); expect(x, "a command of " + to_string(cmd.size()) + " characters", e, to_string(v + 1) + "\nend\n", "", rc, 0); }
  clean(x, fds);
}
// sequences of runs that live at the same time, read in different orders
static void sequence_case(seq::Ctx &x, vector<int> const &kinds, int order) {
  per_process();
  size_t fds = open_fds();
  {
    vector<unique_ptr<exec>> v;
    vector<array<string, 2>> want;
    vector<int> rcs;
    for (size_t i = 0; i < kinds.size(); i++) {
      int k = kinds[i];
      static const int OS[] = {0, 8, 1, 16}, ES[] = {1, 0, 13, 3};
      string o = bytes_of(OS[k], int(i) % 3), e = bytes_of(ES[k], int(i + 1) % 3);
      string cmd = "cat " + file_of(OS[k], int(i) % 3) + "; cat " + file_of(ES[k], int(i + 1) % 3) + " >&2; exit " + to_string(k * 5 + int(i));
      v.push_back(make_unique<exec>(cmd.c_str()));
      want.push_back({o, e}); rcs.push_back(k * 5 + int(i));
      if (order == 0) { expect(x, "run " + to_string(i), *v[i], o, e, rcs[i], 0); }
    }
    if (order == 1) for (size_t i = 0; i < v.size(); i++) expect(x, "run " + to_string(i) + " read at the end", *v[i], want[i][0], want[i][1], rcs[i], 1);
    if (order == 2) for (size_t i = v.size(); i-- > 0;) expect(x, "run " + to_string(i) + " read in reverse order", *v[i], want[i][0], want[i][1], rcs[i], 2);
    if (order == 3) { while (v.size() > 1) { v.erase(v.begin()); want.erase(want.begin()); rcs.erase(rcs.begin()); } expect(x, "the last run, after the others are gone", *v[0], want[0][0], want[0][1], rcs[0], 0); }
  }
  clean(x, fds);
}
static volatile int g_sig;
static void on_sig(int) { g_sig = g_sig + 1; }
static void interrupted_case(seq::Ctx &x, int n) { // signals arrive while the output is read
  per_process();
  struct sigaction sa{}, old{};
  sa.sa_handler = on_sig; // no SA_RESTART: a blocked read() returns EINTR
  sigaction(SIGUSR1, &sa, &old);
  string cmd, want;
  for (int i = 0; i < n; i++) { cmd += "echo line" + to_string(i) + "; sleep 0.03; kill -USR1 " + to_string(getpid()) + "; sleep 0.03; "; want += "line" + to_string(i) + "\n"; }
  cmd += "echo last; exit 11"; want += "last\n";
  { exec e(cmd.c_str()); expect(x, "a run interrupted by " + to_string(n) + " signals", e, want, "", 11, 0); }
  sigaction(SIGUSR1, &old, nullptr);
}
// two processes run commands at the same time
static void processes_case(seq::Ctx &x, int k) {
  per_process();
  string a = "echo out-parent; echo err-parent >&2; exit 3", b = "echo out-child; echo err-child >&2; exit 4";
  int p[2], q[2];
  if (pipe(p) || pipe(q)) return;
  pid_t c = fork();
  if (c == 0) { // runs its command while the parent's result is alive and unread
    char ch; close(p[1]); close(q[0]);
    bool early = k & 1;
    if (early) { if (read(p[0], &ch, 1) != 1) _exit(9); }
    exec e(b.c_str());
    bool ok = write(q[1], "x", 1) == 1;
    if (!early) ok = ok && read(p[0], &ch, 1) == 1;
    ok = ok && out_of(e, 0) == "out-child\n" && slurp(e.stderr_stream(), 0) == "err-child\n" && e.ret_code() == 4;
    _exit(ok ? 0 : 1);
  }
  close(p[0]); close(q[1]);
  {
    char ch;
    if (!(k & 1)) { if (read(q[0], &ch, 1) != 1) x.check("processes", "the other process runs its command", false); }
    exec e(a.c_str());
    if (write(p[1], "x", 1) != 1) x.check("processes", "the other process goes on", false);
    if (k & 1) { if (read(q[0], &ch, 1) != 1) x.check("processes", "the other process runs its command", false); }
    expect(x, "a run while another process runs one", e, "out-parent\n", "err-parent\n", 3, 0);
  }
  int st = 0; waitpid(c, &st, 0);
  x.check("processes", "the other process gets its own output", WIFEXITED(st) && WEXITSTATUS(st) == 0);
  close(p[1]); close(q[0]);
}
int main(int argc, char **argv) {
  for (int sig = 1; sig < 32; sig++) if (sig != SIGKILL && sig != SIGSTOP) signal(sig, SIG_DFL); // nohup and the like would be inherited by the children
  bool th = seq::is_thorough(argc, argv);
  char root[] = "/tmp/verif.d12.XXXXXX";
  if (!mkdtemp(root)) return 2;
  g_root = root;
  vector<seq::Space> sp;
  static const int RC[] = {0, 1, 255};
  sp.push_back({"sizes", uint64_t(NS) * 4 * 3 * (th ? 6 : 3) * 2, [](uint64_t i, seq::Ctx &x) {
    x.state(i);
    int s = int(i % NS); i /= NS; int k = int(i % 4); i /= 4; int r = RC[i % 3]; i /= 3; bool e = i % 2; int h = int(i / 2 * 2 + (s + k) % 2);
    size_case(x, s, k, r, h % 6, e);
  }, [](uint64_t i) { return "code " + to_string(i); }});
  sp.push_back({"exit codes", 256, [](uint64_t i, seq::Ctx &x) { x.state(i); size_case(x, 3, 0, int(i), 0, false); }, [](uint64_t i) { return "exit " + to_string(i); }});
  sp.push_back({"shapes", uint64_t(NSH) * 6, [](uint64_t i, seq::Ctx &x) { x.state(i); shape_case(x, int(i % NSH), int(i / NSH)); }, [](uint64_t i) { return string(SHAPES[i % NSH].cmd); }});
  static const int NL = th ? 3000 : 1100;
  sp.push_back({"lengths", uint64_t(th ? NL : NL / 4) + 4, [th](uint64_t i, seq::Ctx &x) { x.state(i); static const size_t L[] = {4096, 10000, 65536, 120000}; length_case(x, i < 4 ? L[i] : th ? 60 + i : i < 144 ? 440 + (i - 4) : 60 + i * 4, int(i % 7)); }, [](uint64_t i) { return "case " + to_string(i); }});
  sp.push_back({"pairs", 4 * 4 * 4, [](uint64_t i, seq::Ctx &x) { x.state(i); sequence_case(x, {int(i % 4), int(i / 4 % 4)}, int(i / 16)); }, [](uint64_t i) { return "code " + to_string(i); }});
  sp.push_back({"triples", 64 * 4, [](uint64_t i, seq::Ctx &x) { x.state(i); sequence_case(x, {int(i % 4), int(i / 4 % 4), int(i / 16 % 4)}, int(i / 64)); }, [](uint64_t i) { return "code " + to_string(i); }});
  if (th) sp.push_back({"quads", 256 * 4, [](uint64_t i, seq::Ctx &x) { x.state(i); sequence_case(x, {int(i % 4), int(i / 4 % 4), int(i / 16 % 4), int(i / 64 % 4)}, int(i / 256)); }, [](uint64_t i) { return "code " + to_string(i); }});
  sp.push_back({"interrupted", uint64_t(th ? 8 : 4), [](uint64_t i, seq::Ctx &x) { x.state(i); interrupted_case(x, int(i)); }, [](uint64_t i) { return to_string(i) + " signals"; }});
  sp.push_back({"two processes", 8, [](uint64_t i, seq::Ctx &x) { x.state(i); processes_case(x, int(i)); }, [](uint64_t i) { return "code " + to_string(i); }});
  int const rc = seq::run(argc, argv, "D12", sp, "every output size around buffer boundaries x byte contents x exit codes x ways to read, all 256 exit codes, commands of forty shapes and of every length around buffer sizes, all sequences of runs alive at the same time x reading orders, runs interrupted by signals and runs of two processes at a time");
  error_code ec;
  filesystem::remove_all(g_root, ec);
  return rc;
}
