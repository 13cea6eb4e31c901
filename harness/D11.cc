// D11 memory mappings: every sequence of operations on two mapping objects x every single failing system call, over files of boundary sizes
// KIND: seq
// FLAGS: -U_FORTIFY_SOURCE -Wl,--wrap=open,--wrap=fstat,--wrap=mmap,--wrap=munmap,--wrap=close,--wrap=dup,--wrap=dup2,--wrap=dup3
#include "seq.hh"
#include <cmdr11/cmdr_defs.hh>
#include <cmdr11/cmdr_mmap.hh>
#include <cstdarg>
#include <fcntl.h>
#include <map>
#include <optional>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace std;
using Map = cmdr::mmap::detail::mmaplib;

// ------------------------------------------------ the system calls, recorded and made to fail one at a time
static bool g_watch;
static int g_calls, g_fail_at = -1;
static bool g_failed;
static set<int> g_base;                      // descriptors that were open before: not the code's
static map<void *, size_t> g_maps;           // mappings it owns
static vector<string> g_bad;                 // calls on what it does not own
static constexpr int MAXFD = 48;
static bool is_fd(int fd) { return fcntl(fd, F_GETFD) != -1; }
static bool owns(int fd) { return is_fd(fd) && !g_base.count(fd); }
static size_t held() { size_t n = 0; for (int fd = 0; fd < MAXFD; fd++) n += owns(fd); return n; }
static void baseline() { g_base.clear(); for (int fd = 0; fd < MAXFD; fd++) if (is_fd(fd)) g_base.insert(fd); }
static bool fail() {
  if (g_calls++ == g_fail_at) { g_failed = true; errno = ENOMEM; return true; }
  return false;
}
extern "C" {
int __real_open(const char *, int, ...);
int __real_fstat(int, struct stat *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_close(int);
int __real_dup(int);
int __real_dup2(int, int);
int __real_dup3(int, int, int);
int __wrap_open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = flags & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
  if (!g_watch) return __real_open(p, flags, mode);
  if (fail()) return -1;
  return __real_open(p, flags, mode);
}
int __wrap_fstat(int fd, struct stat *st) {
  if (!g_watch) return __real_fstat(fd, st);
  if (fd >= 0 && !owns(fd)) g_bad.push_back("fstat of a descriptor it does not own");
  if (fail()) return -1;
  return __real_fstat(fd, st);
}
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
  if (!g_watch) return __real_mmap(a, n, prot, fl, fd, off);
  if (fd >= 0 && !owns(fd)) g_bad.push_back("mmap of a descriptor it does not own");
  if (fail()) return MAP_FAILED;
  void *r = __real_mmap(a, n, prot, fl, fd, off);
  if (r != MAP_FAILED) g_maps[r] = n;
  return r;
}
int __wrap_munmap(void *a, size_t n) {
  if (!g_watch) return __real_munmap(a, n);
  auto it = g_maps.find(a);
  if (it == g_maps.end()) { g_bad.push_back("munmap of a mapping it does not own"); errno = EINVAL; return -1; }
  if (it->second != n) g_bad.push_back("munmap of " + to_string(n) + " bytes of a mapping of " + to_string(it->second));
  size_t real = it->second;
  g_maps.erase(it);
  return __real_munmap(a, real);
}
int __wrap_close(int fd) {
  if (!g_watch) return __real_close(fd);
  if (!owns(fd)) { g_bad.push_back("close of a descriptor it does not own"); errno = EBADF; return -1; }
  return __real_close(fd);
}
int __wrap_dup(int fd) {
  if (!g_watch) return __real_dup(fd);
  if (!owns(fd)) g_bad.push_back("dup of a descriptor it does not own");
  if (fail()) return -1;
  return __real_dup(fd);
}
int __wrap_dup2(int a, int b) {
  if (!g_watch) return __real_dup2(a, b);
  if (!owns(a) || !owns(b)) { g_bad.push_back("dup2 with a descriptor it does not own"); errno = EBADF; return -1; }
  return __real_dup2(a, b);
}
int __wrap_dup3(int a, int b, int) { return __wrap_dup2(a, b); }
}
struct Watch { Watch() { g_watch = true; } ~Watch() { g_watch = false; } };

// ------------------------------------------------ files
static string g_root, g_dir;
static const size_t SZ[] = {1, 4096, 0, 4097, 4095, 12295};
static constexpr int NF = 6, MISSING = NF, DIRECTORY = NF + 1, NFILE = NF + 2;
static string content(int f) { string s; for (size_t i = 0; i < SZ[f]; i++) s += char('!' + (i * 7 + size_t(f) * 13 + i / 91) % 90); return s; }
static string const &bytes_of(int f) { static vector<string> v = [] { vector<string> r; for (int i = 0; i < NF; i++) r.push_back(content(i)); return r; }(); return v[size_t(f)]; }
static string path_of(int f) { return g_dir + (f == MISSING ? "/missing" : f == DIRECTORY ? "" : "/f" + to_string(f)); }
static void make_files() {
  g_dir = g_root + "/" + to_string(getpid());
  mkdir(g_dir.c_str(), 0700);
  for (int f = 0; f < NF; f++) { ofstream o(path_of(f), ios::binary); o << bytes_of(f); }
  setenv("TMPDIR", g_dir.c_str(), 1);
}
static void per_process() { // workers are forked: each has a directory of its own
  static pid_t owner = 0;
  if (owner == getpid()) return;
  owner = getpid();
  make_files();
}

// ------------------------------------------------ sequences on two objects
enum { CONNECT_PATH, CONNECT_FD, CTOR_PATH, CLOSE, DESTROY, COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SELF_ASSIGN, SELF_MOVE, WRITE, NOPK };
static const char *OPN[] = {"connect(path)", "connect(fd)", "construct(path)", "close", "destroy", "copy-construct from the other", "copy-assign from the other", "move-construct from the other", "move-assign from the other", "assign to itself", "move to itself", "write"};
struct Op { int kind, slot, file, w, s; };
static vector<Op> make_ops(vector<int> const &files, bool modes) {
  vector<Op> r;
  for (int sl = 0; sl < 2; sl++)
    for (int k = 0; k < NOPK; k++)
      if (k <= CTOR_PATH) { for (int f: files) for (int m = 0; m < (modes ? 4 : 1); m++) r.push_back({k, sl, f, m & 1, m >> 1}); }
      else r.push_back({k, sl, 0, 0, 0});
  return r;
}
static string opstr(Op const &o) { return string(OPN[o.kind]) + " #" + to_string(o.slot) + (o.kind <= CTOR_PATH ? " file " + (o.file == MISSING ? string("missing") : o.file == DIRECTORY ? string("a directory") : to_string(SZ[o.file]) + " bytes") + (o.w ? " writeable" : "") + (o.s ? " shareable" : "") : ""); }
struct Model { bool open{false}; int file{0}, w{0}, s{0}; string bytes; };

struct Pair {
  seq::Ctx &x;
  alignas(Map) char mem[2][sizeof(Map)];
  Map *o[2]{};
  Model m[2];
  void ctor(int i, function<void(void *)> f) { if (o[i]) { o[i]->~Map(); o[i] = nullptr; } memset(mem[i], 0x5A, sizeof(Map)); f(mem[i]); o[i] = reinterpret_cast<Map *>(mem[i]); }
  Pair(seq::Ctx &c) : x(c) { Watch w; for (int i = 0; i < 2; i++) ctor(i, [](void *p) { new (p) Map(); }); }
  void finish() { { Watch w; for (int i = 0; i < 2; i++) { o[i]->~Map(); o[i] = nullptr; } } m[0] = m[1] = Model{}; owned("at the end"); }
  ~Pair() { g_watch = false; for (int fd = 0; fd < MAXFD; fd++) if (owns(fd)) ::close(fd); for (auto &e: g_maps) ::munmap(e.first, e.second); g_maps.clear(); g_bad.clear(); }
  void owned(string const &d) {
    size_t n = size_t(m[0].open) + size_t(m[1].open);
    x.eq("descriptors", d + ": descriptors held", n, held());
    x.eq("mappings", d + ": mappings held", n, g_maps.size());
    string b; for (auto &e: g_bad) b += e + ";";
    x.eq("foreign", d + ": calls on what it does not own", string(), b);
    g_bad.clear();
  }
  void look(string const &d) {
    for (int i = 0; i < 2; i++) {
      auto &v = *o[i]; auto &e = m[i];
      string t = d + ": object " + to_string(i);
      x.eq("open", t + " is open", e.open, v.is_open());
      if (e.open != v.is_open()) continue;
      x.eq("size", t + " size", e.open ? SZ[e.file] : size_t(0), v.size());
      if (!e.open || v.size() != SZ[e.file]) continue;
      auto const &want = e.bytes;
      bool same = g_maps.count((void *) v.data()) && memcmp(v.data(), want.data(), want.size()) == 0;
      x.check("bytes", t + " shows the bytes of its file", same);
      x.check("constdata", t + " const and non-const data are the same", (void const *) static_cast<Map const &>(v).data() == (void const *) v.data());
    }
    owned(d);
  }
  // files shared by both objects: a write through a shared writeable mapping is seen by the others
  string disk[NF]; bool dirty[NF]{};
  string const &on_disk(int f) { return dirty[f] ? disk[f] : bytes_of(f); }
  static bool mappable(int f) { return f < NF && SZ[f] > 0; }
  void op(Op const &q) {
    x.step();
    string d = opstr(q);
    int i = q.slot, j = 1 - i;
    g_failed = false;
    Model before0 = m[0], before1 = m[1];
    bool may_be_closed[2] = {false, false};
    switch (q.kind) {
    case CONNECT_PATH: { auto p = path_of(q.file); Watch w; o[i]->connect(q.w, q.s, p.c_str()); break; }
    case CONNECT_FD: { auto p = path_of(q.file); int fd = ::open(p.c_str(), q.w ? O_RDWR : O_RDONLY); Watch w; o[i]->connect(q.w, q.s, fd); break; }
    case CTOR_PATH: { auto p = path_of(q.file); Watch w; ctor(i, [&](void *a) { new (a) Map(p.c_str(), q.w, q.s); }); break; }
    case CLOSE: { Watch w; o[i]->close(); m[i] = Model{}; break; }
    case DESTROY: { Watch w; ctor(i, [](void *a) { new (a) Map(); }); m[i] = Model{}; break; }
    case COPY_CTOR: { Watch w; ctor(i, [&](void *a) { new (a) Map(*static_cast<Map const *>(o[j])); }); m[i] = m[j]; if (m[i].open) m[i].bytes = on_disk(m[i].file); break; }
    case COPY_ASSIGN: { Watch w; *o[i] = *static_cast<Map const *>(o[j]); m[i] = m[j]; if (m[i].open) m[i].bytes = on_disk(m[i].file); break; }
    case MOVE_CTOR: { Watch w; ctor(i, [&](void *a) { new (a) Map(std::move(*o[j])); }); m[i] = m[j]; m[j] = Model{}; break; }
    case MOVE_ASSIGN: { Watch w; *o[i] = std::move(*o[j]); m[i] = m[j]; m[j] = Model{}; break; }
    case SELF_ASSIGN: { Watch w; auto &self = *o[i]; *o[i] = self; break; }
    case SELF_MOVE: { Watch w; auto &self = *o[i]; *o[i] = std::move(self); break; }
    case WRITE:
      if (m[i].open && m[i].w && o[i]->is_open()) {
        o[i]->data()[0] = '\1'; o[i]->data()[SZ[m[i].file] - 1] = '\2';
        auto put = [](string &s) { s[0] = '\1'; s.back() = '\2'; };
        int f = m[i].file;
        if (m[i].s) {
          if (!dirty[f]) { dirty[f] = true; disk[f] = bytes_of(f); }
          put(disk[f]);
          // a private mapping of the same file may or may not show it: stop comparing those
          for (int k = 0; k < 2; k++) if (m[k].open && m[k].file == f) { if (m[k].s || k == i) m[k].bytes = disk[f]; else m[k].bytes = string(o[k]->data(), SZ[f]); }
        } else put(m[i].bytes);
      }
      break;
    }
    if (q.kind <= CTOR_PATH) {
      bool ok = mappable(q.file);
      m[i] = Model{}; // connecting releases what was there
      if (ok) m[i] = {true, q.file, q.w, q.s, on_disk(q.file)};
      may_be_closed[i] = true;
    }
    if (q.kind == COPY_CTOR || q.kind == COPY_ASSIGN) may_be_closed[i] = true;
    if (g_failed) {
      x.interesting();
      // the operation whose system call failed leaves its object closed; one that failed before it touched the
      // object may leave it as it was
      for (int k = 0; k < 2; k++)
        if (may_be_closed[k]) {
          bool stays = o[k]->is_open() && (k == 0 ? before0 : before1).open && q.kind == CONNECT_PATH;
          if (stays) m[k] = k == 0 ? before0 : before1; else m[k] = Model{};
        }
      d += " with a failing system call";
    }
    look(d);
  }
};
static void run_case(seq::Ctx &x, vector<Op> const &ops, int fail_at) {
  per_process();
  static struct stat in0; static bool have = false;
  if (!have) { __real_fstat(0, &in0); have = true; }
  int const sentinel = ::open((g_dir + "/f0").c_str(), O_RDONLY);
  baseline();
  g_calls = 0; g_fail_at = fail_at;
  {
    Pair p(x);
    for (auto &o: ops) p.op(o);
    p.finish();
    for (int f = 0; f < NF; f++) {
      if (p.dirty[f]) { // the file has exactly what was written through shared mappings
        ifstream in(path_of(f), ios::binary); stringstream ss; ss << in.rdbuf();
        x.check("file", "a write through a shared mapping reaches the file", ss.str() == p.disk[f]);
        ofstream out(path_of(f), ios::binary); out << bytes_of(f);
      }
    }
    x.outcome(to_string(g_calls) + (g_failed ? "f" : "") + opstr(ops.back()));
  }
  g_fail_at = -1;
  char c;
  x.check("sentinel", "another open descriptor still reads its file", sentinel >= 0 && ::pread(sentinel, &c, 1, 0) == 1 && c == bytes_of(0)[0]);
  ::close(sentinel);
  struct stat now; int r = __real_fstat(0, &now);
  x.check("stdin", "the standard input is untouched", r == 0 && now.st_ino == in0.st_ino && now.st_dev == in0.st_dev);
}

// ------------------------------------------------ mmap<> with a file of its own, mmap_um
template<bool W, bool S> static void temp_case(seq::Ctx &x, vector<int> const &sizes) {
  per_process();
  static const size_t TS[] = {1, 2, 4095, 4096, 4097, 100000};
  using M = cmdr::mmap::mmap<W, S>;
  vector<unique_ptr<M>> v;
  set<string> names;
  for (int k: sizes) {
    x.step(); x.interesting();
    v.push_back(make_unique<M>(TS[k]));
    auto &m = *v.back();
    string n = m.underlying_filename();
    string d = "mmap of " + to_string(TS[k]);
    x.check("temp.name", d + ": files of living mappings are distinct", names.insert(n).second);
    x.check("temp.dir", d + ": the file is in the temporary directory", n.rfind(g_dir, 0) == 0);
    x.eq("temp.open", d + ": open", true, m.is_open());
    x.eq("temp.size", d + ": size", TS[k], m.size());
    x.eq("temp.length", d + ": length", TS[k], m.length());
    struct stat st{};
    x.check("temp.file", d + ": the file exists and has that size", ::stat(n.c_str(), &st) == 0 && size_t(st.st_size) == TS[k]);
    if (!m.is_open() || m.size() != TS[k]) continue;
    bool zero = true; for (size_t i = 0; i < m.size(); i++) zero = zero && m.data()[i] == 0;
    x.check("temp.zero", d + ": all bytes are zero", zero);
    if constexpr (W) { memset(m.data(), int(v.size()), m.size()); }
    if constexpr (W && S) { ifstream in(n, ios::binary); stringstream ss; ss << in.rdbuf(); x.check("temp.write", d + ": what is written is in the file", ss.str() == string(TS[k], char(v.size()))); }
  }
  if constexpr (W) for (size_t i = 0; i < v.size(); i++) { bool ok = true; for (size_t k = 0; k < v[i]->size(); k++) ok = ok && v[i]->data()[k] == char(i + 1); x.check("temp.own", "each mapping keeps its own bytes", ok); }
  while (!v.empty()) {
    size_t at = v.size() / 2;
    string n = v[at]->underlying_filename();
    v.erase(v.begin() + long(at));
    struct stat st{};
    x.check("temp.gone", "the file of a destroyed mapping is gone", ::stat(n.c_str(), &st) != 0);
    for (auto &m: v) x.check("temp.kept", "the files of the others are still there", ::stat(m->underlying_filename().c_str(), &st) == 0);
  }
}
template<bool W, bool S> static void um_case(seq::Ctx &x, int f, int fail_at) {
  per_process();
  baseline();
  int fd = ::open(path_of(f).c_str(), W ? O_RDWR : O_RDONLY);
  g_calls = 0; g_fail_at = fail_at; g_failed = false;
  x.step(); x.interesting();
  string d = "mmap_um of file " + to_string(f);
  {
    g_watch = true;
    cmdr::mmap::mmap_um<W, S> m(fd);
    g_watch = false;
    bool want = f < NF && SZ[f] > 0 && !g_failed;
    x.eq("um.open", d + ": open", want, m.is_open());
    x.eq("um.size", d + ": size", want ? SZ[f] : size_t(0), m.size());
    if (want && m.is_open()) x.check("um.bytes", d + ": bytes", memcmp(m.data(), bytes_of(f).data(), SZ[f]) == 0);
    g_watch = true;
  }
  g_watch = false;
  string b; for (auto &e: g_bad) b += e + ";";
  x.eq("um.foreign", d + ": calls on what it does not own", string(), b);
  x.check("um.leak", d + ": everything is released", held() == 0 && g_maps.empty());
  g_bad.clear(); g_maps.clear(); g_fail_at = -1;
}
int main(int argc, char **argv) {
  bool th = seq::is_thorough(argc, argv);
  char root[] = "/tmp/verif.d11.XXXXXX";
  if (!mkdtemp(root)) return 2;
  g_root = root;
  vector<seq::Space> sp;
  auto add = [&](string name, vector<Op> ops, unsigned depth, int faults) { // faults: -1 = none, else the first `faults` calls of the last operations
    auto st = make_shared<vector<Op>>(move(ops));
    uint64_t n = 1; for (unsigned k = 0; k < depth; k++) n *= st->size();
    auto decode = [=](uint64_t i) { vector<Op> v; for (unsigned k = 0; k < depth; k++, i /= st->size()) v.push_back((*st)[i % st->size()]); return v; };
    uint64_t nf = uint64_t(faults + 1);
    sp.push_back({name, n * nf, [=](uint64_t i, seq::Ctx &x) { x.state(i); run_case(x, decode(i / nf), int(i % nf) - 1); },
                  [=](uint64_t i) { string s; for (auto &o: decode(i / nf)) s += opstr(o) + "; "; return s + (i % nf ? "system call " + to_string(i % nf) + " fails" : ""); }});
  };
  vector<int> all; for (int f = 0; f < NFILE; f++) all.push_back(f);
  add("all files and modes", make_ops(all, true), th ? 2 : 1, 5);
  add("pairs", make_ops({1, 3, 2, MISSING}, true), 2, 6);
  add("triples", make_ops({0, 3, MISSING}, false), 3, th ? 9 : 4);
  add("writes", make_ops({1, 3}, true), 2, -1 + 1);
  { // shared and private writeable mappings: connect both objects, then two operations out of the short list
    add("deep", [] { vector<Op> r; for (int sl = 0; sl < 2; sl++) { r.push_back({CONNECT_PATH, sl, 1, 1, 1}); r.push_back({CTOR_PATH, sl, 3, 1, 0}); for (int k: {CLOSE, COPY_ASSIGN, MOVE_ASSIGN, MOVE_CTOR, COPY_CTOR, WRITE}) r.push_back({k, sl, 0, 0, 0}); } return r; }(), th ? 5 : 4, 0);
  }
  for (int m = 0; m < 4; m++)
    sp.push_back({"temp" + to_string(m), 216, [m](uint64_t i, seq::Ctx &x) { x.state(i); vector<int> s{int(i % 6), int(i / 6 % 6), int(i / 36)}; m == 0 ? temp_case<false, false>(x, s) : m == 1 ? temp_case<true, false>(x, s) : m == 2 ? temp_case<false, true>(x, s) : temp_case<true, true>(x, s); }, [](uint64_t i) { return "sizes code " + to_string(i); }});
  sp.push_back({"um", uint64_t(NFILE) * 4 * 4, [](uint64_t i, seq::Ctx &x) { int f = int(i % NFILE), m = int(i / NFILE % 4), fl = int(i / NFILE / 4) - 1; if (f == DIRECTORY && (m & 1)) f = MISSING; m == 0 ? um_case<false, false>(x, f, fl) : m == 1 ? um_case<true, false>(x, f, fl) : m == 2 ? um_case<false, true>(x, f, fl) : um_case<true, true>(x, f, fl); }, [](uint64_t i) { return "code " + to_string(i); }});
  int const rc = seq::run(argc, argv, "D11", sp, "every sequence of connecting, closing, destroying, copying, moving, assigning and writing on two mapping objects up to a depth x every single failing system call, over files of boundary sizes, missing files and directories; all descriptors and mappings are accounted for after every operation");
  error_code ec;
  filesystem::remove_all(g_root, ec);
  return rc;
}
