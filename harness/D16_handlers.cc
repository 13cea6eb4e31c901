// D16 (companion) the installers of handlers: every history of installations followed by every way to end, in child processes
// KIND: fast
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <functional>
#include <cmdr11/cmdr_dbg.hh>
#include <deque>
#include <thread>
using std::string; using std::to_string; using std::vector;
using namespace cmdr::debug;

enum { USR1_A, USR1_B, USR1_PLAIN, USR2_A, SEGV_A, SEGV_PLAIN, TERM_A, UNH_A, UNH_B, UNH_PLAIN, NI };
static const char *INST[] = {"SignalInstaller<SIGUSR1>(a)", "SignalInstaller<SIGUSR1>(b)", "SignalInstaller<SIGUSR1>()", "SignalInstaller<SIGUSR2>(a)", "SigSegVInstaller(a)", "SigSegVInstaller()",
                             "SignalInstaller<SIGTERM>(a)", "UnhandledExceptionHookInstaller(a)", "UnhandledExceptionHookInstaller(b)", "UnhandledExceptionHookInstaller()"};
enum { R_USR1, R_USR2, R_SEGV, R_REAL_SEGV, R_TERM, R_THROW, R_TERMINATE, R_NOEXCEPT, R_THREAD, R_RETURN, NR };
static const char *END[] = {"SIGUSR1", "SIGUSR2", "SIGSEGV", "a write to address 0", "SIGTERM", "an exception nobody catches", "terminate()", "an exception out of a noexcept function", "an exception out of a thread", "nothing"};
static int g_out;
static std::function<void(int)> told(char c) { return [c](int s) { string t = c + to_string(s) + ";"; if (write(g_out, t.data(), t.size()) < 0) abort(); }; }
static std::function<void()> told0(char c) { return [c] { string t = string(1, c) + ";"; if (write(g_out, t.data(), t.size()) < 0) abort(); }; }
static void no() noexcept { throw std::runtime_error("out of noexcept"); }
[[noreturn]] static void child(vector<int> const &h, int end, int out, int err) {
  g_out = out;
  for (int s : {SIGUSR1, SIGUSR2, SIGSEGV, SIGTERM, SIGABRT}) { signal(s, SIG_DFL); sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, nullptr); }
  dup2(err, 1); dup2(err, 2);
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  for (int i : h) // the installers live as long as the process
    switch (i) {
    case USR1_A: new SignalInstaller<SIGUSR1>(told('a')); break;
    case USR1_B: new SignalInstaller<SIGUSR1>(told('b')); break;
    case USR1_PLAIN: new SignalInstaller<SIGUSR1>(); break;
    case USR2_A: new SignalInstaller<SIGUSR2>(told('c')); break;
    case SEGV_A: new SigSegVInstaller(told('d')); break;
    case SEGV_PLAIN: new SigSegVInstaller(); break;
    case TERM_A: new SignalInstaller<SIGTERM>(told('e')); break;
    case UNH_A: new UnhandledExceptionHookInstaller(told0('f')); break;
    case UNH_B: new UnhandledExceptionHookInstaller(told0('g')); break;
    default: new UnhandledExceptionHookInstaller();
    }
  switch (end) {
  case R_USR1: raise(SIGUSR1); break;
  case R_USR2: kill(getpid(), SIGUSR2); break;
  case R_SEGV: raise(SIGSEGV); break;
  case R_REAL_SEGV: { volatile int *volatile p = nullptr; *p = 1; break; }
  case R_TERM: raise(SIGTERM); break;
  case R_THROW: [&]() noexcept { throw 42; }(); break; // (the explorer itself would catch it further up)
  case R_TERMINATE: std::terminate();
  case R_NOEXCEPT: no(); break;
  case R_THREAD: std::thread([] { throw std::runtime_error("in a thread"); }).join(); break;
  default: break;
  }
  _exit(77); // came through
}
static string content(int fd) { string o((size_t) lseek(fd, 0, SEEK_END), 0); if (pread(fd, o.data(), o.size(), 0) != (ssize_t) o.size()) abort(); return o; }
static string desc(vector<int> const &h, int end) { string d; for (int i : h) d += string(INST[i]) + ", "; return d + "then " + END[end]; }
static void one(seq::Ctx &x, vector<int> const &h, int end) {
  static int out = memfd_create("d16o", 0), err = memfd_create("d16e", 0);
  if (ftruncate(out, 0) || ftruncate(err, 0)) abort();
  lseek(out, 0, SEEK_SET); lseek(err, 0, SEEK_SET);
  x.step();
  // the last installation for what happens
  int sig = end == R_USR1 ? SIGUSR1 : end == R_USR2 ? SIGUSR2 : end == R_SEGV || end == R_REAL_SEGV ? SIGSEGV : end == R_TERM ? SIGTERM : end == R_RETURN ? 0 : SIGABRT;
  int last = -1;
  auto handles = [&](int i) {
    switch (i) {
    case USR1_A: case USR1_B: case USR1_PLAIN: return sig == SIGUSR1;
    case USR2_A: return sig == SIGUSR2;
    case SEGV_A: case SEGV_PLAIN: return sig == SIGSEGV;
    case TERM_A: return sig == SIGTERM;
    default: return sig == SIGABRT;
    }
  };
  for (int i : h) if (handles(i)) last = i;
  string want_out, want_end;
  if (last < 0) want_end = sig ? "killed by " + to_string(sig) : "came through";
  else {
    want_end = "exit 1";
    switch (last) {
    case USR1_A: want_out = "a" + to_string(SIGUSR1) + ";"; break;
    case USR1_B: want_out = "b" + to_string(SIGUSR1) + ";"; break;
    case USR2_A: want_out = "c" + to_string(SIGUSR2) + ";"; break;
    case SEGV_A: want_out = "d" + to_string(SIGSEGV) + ";"; break;
    case TERM_A: want_out = "e" + to_string(SIGTERM) + ";"; break;
    case UNH_A: want_out = "f;"; break;
    case UNH_B: want_out = "g;"; break;
    default: break;
    }
    x.interesting();
  }
  std::cout.flush(); fflush(nullptr);
  pid_t p = fork();
  if (p == 0) child(h, end, out, err);
  int st = 0;
  waitpid(p, &st, 0);
  string got_end = WIFSIGNALED(st) ? "killed by " + to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 77 ? "came through" : "exit " + to_string(WEXITSTATUS(st));
  string d = desc(h, end), e = content(err);
  x.outcome(got_end + content(out)); x.state(d);
  x.eq("handler.end", d + ": the process", want_end, got_end);
  x.eq("handler.told", d + ": the functions called", want_out, content(out));
  if (last >= 0) x.check("handler.report", d + ": what happened is reported", e.find(last >= UNH_A ? "Unhandled Exception" : "Error: signal " + to_string(sig) + ":\n") != string::npos);
  else if (end == R_RETURN) x.eq("handler.quiet", d + ": output", string(), e);
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  unsigned L = T ? 4 : 2;
  auto n = seq::words_count(NI, 0, L);
  std::set_terminate([] { abort(); });
  vector<seq::Space> sp{{"handlers", n * NR, [=](uint64_t i, seq::Ctx &x) { one(x, seq::word_at(i / NR, NI, 0, L), (int) (i % NR)); },
                         [=](uint64_t i) { return desc(seq::word_at(i / NR, NI, 0, L), (int) (i % NR)); }}};
  return seq::run(argc, argv, "D16", sp, "all histories of installed handlers up to a length x all ways to end");
}
