// seq.hh - bounded exhaustive explorer for sequential code.
//
// A harness declares one or more *spaces*.  A space is a finite set of cases numbered 0..size-1 (a
// mixed-radix enumeration of operation sequences, argument vectors, input texts ...).  Every case is
// executed on the real code; the harness compares each step with its reference model and reports
// disagreements with a signature.  The explorer runs every case of every space (never a sample): the
// numbers are dealt to forked workers, a worker that crashes or hangs yields a violation for the very
// case it was executing, and the remaining cases are continued by a fresh worker.
#pragma once
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace seq {

  inline uint64_t fnv(void const *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto const *c = (unsigned char const *) p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
  }
  inline uint64_t fnv(std::string const &s) { return fnv(s.data(), s.size()); }

  inline std::string jesc(std::string const &s) {
    std::string o;
    for (unsigned char c: s) {
      if (c == '"' || c == '\\') (o += '\\') += (char) c;
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char) c;
    }
    return o;
  }

  struct shared_slot {
    volatile uint64_t idx;       // case being executed (within the worker's space)
    volatile uint64_t seqno;     // bumped for each case
    volatile int active;
  };

  // Per-case interface given to the harness.
  struct Ctx {
    uint64_t evals = 0, transitions = 0, nontrivial = 0;
    std::unordered_set<uint64_t> states, outcomes;
    bool verbose = false;
    struct viol { std::string sig, desc, space; uint64_t idx; };
    std::vector<viol> viols;
    std::map<std::string, uint64_t> sig_count;
    std::string space; uint64_t idx = 0;

    void step(uint64_t n = 1) { transitions += n; }
    void state(uint64_t h) { if (states.size() < 4000000) states.insert(h); }
    void state(std::string const &s) { state(fnv(s)); }
    void outcome(std::string const &s) { if (outcomes.size() < 4000000) outcomes.insert(fnv(s)); if (verbose) fprintf(stderr, "outcome: %s\n", s.c_str()); }
    void interesting() { nontrivial++; }
    void fail(std::string const &sig, std::string const &desc) {
      auto n = sig_count[sig]++;
      if (n < 1 && viols.size() < 400) viols.push_back({sig, desc, space, idx});
      if (verbose) fprintf(stderr, "FAIL [%s] %s\n", sig.c_str(), desc.c_str());
    }
    template<class A, class B>
    bool eq(std::string const &sig, std::string const &what, A const &expect, B const &got) {
      if (expect == got) return true;
      std::ostringstream os;
      os << what << ": expected " << expect << ", got " << got;
      fail(sig, os.str());
      return false;
    }
    bool check(std::string const &sig, std::string const &what, bool ok) {
      if (!ok) fail(sig, what);
      return ok;
    }
  };

  struct Space {
    std::string name;
    uint64_t size;
    std::function<void(uint64_t, Ctx &)> run;
    std::function<std::string(uint64_t)> describe;
  };

  // mixed radix decoder
  struct Digits {
    uint64_t v;
    explicit Digits(uint64_t x) : v(x) {}
    uint64_t take(uint64_t radix) { uint64_t r = v % radix; v /= radix; return r; }
  };

  // all words over an alphabet of k letters with length lo..hi: number of them / the i-th, shortest first
  inline uint64_t words_count(uint64_t k, unsigned lo, unsigned hi) {
    uint64_t n = 0, p = 1;
    for (unsigned l = 0; l <= hi; l++) { if (l >= lo) n += p; p *= k; }
    return n;
  }
  inline std::vector<int> word_at(uint64_t i, uint64_t k, unsigned lo, unsigned hi) {
    uint64_t p = 1;
    for (unsigned l = 0; l <= hi; l++) {
      if (l >= lo) {
        if (i < p) {
          std::vector<int> w(l);
          for (unsigned j = l; j-- > 0;) { w[j] = (int) (i % k); i /= k; }
          return w;
        }
        i -= p;
      }
      p *= k;
    }
    fprintf(stderr, "word_at: index out of range\n");
    abort();
  }

  struct Config {
    bool thorough = false;
    int workers = 8;
    std::string out, replay;
    int hang_s = 15;        // cpu-ish seconds for a single case before it is retried alone
    int max_crashes = 6;    // per space
    int max_failed = 12, max_hangs = 2; // in all: then the exploration is given up, there is enough to report
    size_t max_mb = 3000;   // memory of one worker (hundreds of times of what the cases need)
    size_t mem_mb = 0;
  };

  inline Config &config() { static Config c; return c; }

  inline double now() { timespec t{}; ::clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

  inline std::string read_file(std::string const &p, size_t max = 20000) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > max) s = s.substr(0, max / 2) + "\n...\n" + s.substr(s.size() - max / 2);
    return s;
  }

  inline void dump_ctx(Ctx const &c, std::string const &path) {
    std::ofstream o(path, std::ios::binary);
    auto ps = [&](std::string const &s) { uint64_t n = s.size(); o.write((char *) &n, 8); o.write(s.data(), (std::streamsize) n); };
    auto pu = [&](uint64_t n) { o.write((char *) &n, 8); };
    pu(c.evals); pu(c.transitions); pu(c.nontrivial);
    pu(c.states.size()); for (auto h: c.states) pu(h);
    pu(c.outcomes.size()); for (auto h: c.outcomes) pu(h);
    pu(c.viols.size()); for (auto &v: c.viols) { ps(v.sig); ps(v.desc); ps(v.space); pu(v.idx); }
    pu(c.sig_count.size()); for (auto &kv: c.sig_count) { ps(kv.first); pu(kv.second); }
    pu(0x600d600d);
  }
  inline bool merge_ctx(Ctx &c, std::string const &path) {
    std::ifstream in(path, std::ios::binary);
    if (!in) return false;
    auto gu = [&]() { uint64_t n = 0; in.read((char *) &n, 8); return n; };
    auto gs = [&]() { uint64_t n = gu(); std::string s(n, 0); in.read(&s[0], (std::streamsize) n); return s; };
    c.evals += gu(); c.transitions += gu(); c.nontrivial += gu();
    uint64_t n = gu(); while (n--) c.states.insert(gu());
    n = gu(); while (n--) c.outcomes.insert(gu());
    n = gu(); while (n--) { Ctx::viol v; v.sig = gs(); v.desc = gs(); v.space = gs(); v.idx = gu();
      bool dup = false; for (auto &x: c.viols) if (x.sig == v.sig) { dup = true; if (v.idx < x.idx && v.space == x.space) x = v; }
      if (!dup) c.viols.push_back(v); }
    n = gu(); while (n--) { auto k = gs(); c.sig_count[k] += gu(); }
    return gu() == 0x600d600d;
  }

  struct nullbuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(char const *, std::streamsize n) override { return n; }
  };
  inline void quiet_stdio(std::string const &log) {
    fflush(stdout); fflush(stderr);
    static nullbuf nb;
    std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb);
    int nul = ::open("/dev/null", O_WRONLY);
    int fd  = ::open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    dup2(nul, 1); dup2(fd, 2);
    close(nul); close(fd);
  }

  // main driver. Returns process exit code: 0 always when the exploration itself worked (violations are in the json)
  inline size_t rss_mb(pid_t pid) { // of a child
    std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
    size_t size = 0, res = 0;
    f >> size >> res;
    return res / 256;
  }
  inline int run(int argc, char **argv, std::string const &prop, std::vector<Space> spaces, std::string const &rule) {
    auto &cfg = config();
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto val = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return std::string(argv[++i]); };
      if (a == "--tier") cfg.thorough = val() == "thorough";
      else if (a == "--workers") cfg.workers = std::stoi(val());
      else if (a == "--out") cfg.out = val();
      else if (a == "--replay") cfg.replay = val();
      else if (a == "--hang") cfg.hang_s = std::stoi(val());
    }
    if (!cfg.replay.empty()) {
      // SPACE:INDEX
      auto p = cfg.replay.rfind(':');
      auto sn = cfg.replay.substr(0, p); uint64_t ix = std::stoull(cfg.replay.substr(p + 1));
      for (auto &s: spaces) if (s.name == sn) {
        Ctx c; c.verbose = true; c.space = sn; c.idx = ix;
        fprintf(stderr, "replaying %s:%" PRIu64 "\n", sn.c_str(), ix);
        if (s.describe) fprintf(stderr, "case: %s\n", s.describe(ix).c_str());
        s.run(ix, c);
        fprintf(stderr, "%s\n", c.viols.empty() ? "replay: property holds on this case" : "replay: VIOLATED");
        return c.viols.empty() ? 0 : 1;
      }
      fprintf(stderr, "no such space\n"); return 2;
    }
    double t0 = now();
    char tmpl[] = "/tmp/seqXXXXXX";
    std::string dir = mkdtemp(tmpl);
    auto *slots = (shared_slot *) mmap(nullptr, sizeof(shared_slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Ctx total;
    uint64_t crashes = 0, hangs = 0;
    std::vector<std::string> samples;
    std::ostringstream per_space;
    bool complete = true;
    int W = cfg.workers;
    int filen = 0;
    bool give_up = false;
    for (auto &sp: spaces) {
      if (give_up) { complete = false; break; }
      double ts = now();
      struct W_t { pid_t pid = -1; std::string file, log; uint64_t last_seq = 0; double last_t = 0; int shard = 0; };
      std::vector<W_t> ws((size_t) W);
      int space_crashes = 0;
      auto launch = [&](int w, uint64_t from) {
        auto &x = ws[(size_t) w];
        x.shard = w;
        x.file = dir + "/r" + std::to_string(filen); x.log = dir + "/l" + std::to_string(filen++);
        slots[w].active = 1; slots[w].idx = from;
        x.last_seq = slots[w].seqno; x.last_t = now();
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
          quiet_stdio(x.log);
          Ctx c; c.space = sp.name;
          for (uint64_t i = from; i < sp.size; i += (uint64_t) W) {
            slots[w].idx = i; slots[w].seqno = slots[w].seqno + 1;
            c.idx = i; c.evals++;
            sp.run(i, c);
          }
          dump_ctx(c, x.file);
          fflush(stdout); fflush(stderr);
          _exit(0);
        }
        x.pid = pid;
      };
      // crash handling re-runs a shard from after the crashing index; counters of the lost part are
      // recovered by first re-running the completed prefix in a bounded worker.
      auto launch_range = [&](int w, uint64_t from, uint64_t to) -> bool { // synchronous [from,to)
        pid_t pid = fork();
        auto f = dir + "/r" + std::to_string(filen), l = dir + "/l" + std::to_string(filen++);
        if (pid == 0) {
          quiet_stdio(l);
          Ctx c; c.space = sp.name;
          for (uint64_t i = from; i < to; i += (uint64_t) W) { c.idx = i; c.evals++; sp.run(i, c); }
          dump_ctx(c, f);
          _exit(0);
        }
        (void) w;
        int st = 0; waitpid(pid, &st, 0);
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && merge_ctx(total, f);
        unlink(f.c_str()); unlink(l.c_str());
        return ok;
      };
      std::vector<uint64_t> starts((size_t) W);
      int running = 0;
      for (int w = 0; w < W && (uint64_t) w < sp.size; w++) { starts[(size_t) w] = (uint64_t) w; launch(w, (uint64_t) w); running++; }
      // run one case alone, with a limit; 0 ok, 1 violated/crashed, 2 hang
      auto alone = [&](uint64_t ix, int limit, std::string &log) {
        auto l = dir + "/alone";
        pid_t pid = fork();
        if (pid == 0) { quiet_stdio(l); Ctx c; c.space = sp.name; c.idx = ix; sp.run(ix, c); _exit(c.viols.empty() ? 0 : 3); }
        double t = now(); int st = 0;
        while (waitpid(pid, &st, WNOHANG) == 0) {
          if (now() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); log = read_file(l); return 2; }
          usleep(2000);
        }
        log = read_file(l);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        return 1;
      };
      double last_mem = now();
      while (running > 0) {
        bool any = false;
        bool look_mem = now() - last_mem > 0.5;
        if (look_mem) last_mem = now();
        for (int w = 0; w < W; w++) {
          auto &x = ws[(size_t) w];
          if (x.pid <= 0) continue;
          int st = 0;
          pid_t r = waitpid(x.pid, &st, WNOHANG);
          uint64_t bad = slots[w].idx;
          bool failed = false; std::string kind, log;
          if (r == x.pid) {
            any = true;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && merge_ctx(total, x.file)) {
              x.pid = -1; running--; unlink(x.file.c_str()); unlink(x.log.c_str());
              continue;
            }
            failed = true; kind = "crash"; log = read_file(x.log);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) kind = "memory"; else {
            std::string l2; int a = alone(bad, cfg.hang_s * 3, l2);
            if (!l2.empty() && a == 1) log = l2;
            if (a == 0) kind = "crash-history"; // only reproduces with the preceding cases in the same process
            }
          } else {
            if (look_mem && rss_mb(x.pid) > cfg.max_mb) {
              any = true;
              kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0);
              failed = true; kind = "memory"; log = "more than " + std::to_string(cfg.max_mb) + " MB used";
            } else if (slots[w].seqno != x.last_seq) { x.last_seq = slots[w].seqno; x.last_t = now(); }
            else if (now() - x.last_t > cfg.hang_s) {
              any = true;
              kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0);
              std::string l2; int a = alone(bad, cfg.hang_s * 3, l2);
              if (a == 2) { failed = true; kind = "hang"; log = l2; }
              else if (a == 1) { failed = true; kind = "crash"; log = l2; }
              else { // slow machine: resume from the same case
                fprintf(stderr, "note: case %s:%" PRIu64 " was slow, resumed\n", sp.name.c_str(), bad);
                if (bad > starts[(size_t) w]) launch_range(w, starts[(size_t) w], bad);
                starts[(size_t) w] = bad; launch(w, bad);
                continue;
              }
            }
          }
          if (failed) {
            (kind == "hang" || kind == "memory" ? hangs : crashes)++;
            space_crashes++;
            std::string desc = kind + " while executing " + (sp.describe ? sp.describe(bad) : std::to_string(bad)) + "\n" + log.substr(0, 3000);
            total.space = sp.name; total.idx = bad;
            std::string what = sp.describe ? sp.describe(bad) : std::to_string(bad);
            total.fail(kind + ":" + sp.name + ":" + what, desc);
            if (crashes + hangs >= (uint64_t) cfg.max_failed || hangs >= (uint64_t) cfg.max_hangs) give_up = true;
            if (bad > starts[(size_t) w] && !give_up) launch_range(w, starts[(size_t) w], bad);
            unlink(x.file.c_str()); unlink(x.log.c_str());
            total.evals++;
            uint64_t next = bad + (uint64_t) W;
            x.pid = -1; running--;
            if (give_up) {
              complete = false;
              for (auto &y : ws) if (y.pid > 0) { kill(y.pid, SIGKILL); waitpid(y.pid, &st, 0); y.pid = -1; running--; }
              break;
            }
            if (space_crashes > cfg.max_crashes) { complete = false; continue; }
            if (next < sp.size) { starts[(size_t) w] = next; launch(w, next); running++; }
          }
        }
        if (!any) usleep(5000);
      }
      if (sp.describe && sp.size) for (int k = 0; k < 3; k++) {
        uint64_t ix = k == 0 ? 0 : k == 1 ? sp.size / 2 : sp.size - 1;
        samples.push_back(sp.name + ":" + std::to_string(ix) + " = " + sp.describe(ix));
      }
      per_space << (per_space.tellp() > 0 ? "," : "") << "{\"space\":\"" << jesc(sp.name) << "\",\"cases\":" << sp.size << ",\"wall_s\":" << (now() - ts) << "}";
    }
    // describe violations
    std::ostringstream js;
    js << "{\"property\":\"" << prop << "\",\"evaluations\":" << total.evals << ",\"transitions\":" << total.transitions
       << ",\"nontrivial\":" << total.nontrivial << ",\"states\":" << total.states.size() << ",\"outcomes\":" << total.outcomes.size()
       << ",\"crashes\":" << crashes << ",\"hangs\":" << hangs << ",\"complete\":" << (complete ? "true" : "false")
       << ",\"rule\":\"" << jesc(rule) << "\",\"wall_s\":" << (now() - t0) << ",\"spaces\":[" << per_space.str() << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) js << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
    js << "],\"violations\":[";
    bool first = true;
    for (auto &v: total.viols) {
      std::string d;
      for (auto &s: spaces) if (s.name == v.space && s.describe) d = s.describe(v.idx);
      js << (first ? "" : ",") << "{\"sig\":\"" << jesc(v.sig) << "\",\"desc\":\"" << jesc(v.desc) << "\",\"case\":\"" << jesc(d)
         << "\",\"count\":" << total.sig_count[v.sig] << ",\"replay\":\"" << jesc(v.space) << ":" << v.idx << "\"}";
      first = false;
    }
    js << "]}";
    if (!cfg.out.empty()) { std::ofstream o(cfg.out); o << js.str() << "\n"; }
    else printf("%s\n", js.str().c_str());
    std::string rm = "rm -rf -- '" + dir + "'";
    if (system(rm.c_str()) != 0) fprintf(stderr, "cleanup failed\n");
    return 0;
  }

  inline bool is_thorough(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) return true;
    return false;
  }
} // namespace seq
