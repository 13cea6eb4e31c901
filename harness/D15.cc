// D15 paths and files: histories of the file helpers on four names against a model of the directory; path arithmetic on all composed paths
// KIND: fast
// FLAGS: -ftrivial-auto-var-init=pattern
#include "seq.hh"
#include <cmdr11/cmdr_path.hh>
#include <map>
#include <set>
#include <sys/stat.h>
using std::string; using std::to_string; using std::vector;
namespace fs = std::filesystem;
namespace cp = cmdr::path;
namespace io = cmdr::io;
using strs = vector<string>;
static string g_root, g_dir;
static void scratch() { // one directory per worker, empty for every case
  if (g_dir.empty() || g_dir != g_root + "/" + to_string(getpid())) g_dir = g_root + "/" + to_string(getpid());
  std::error_code ec;
  fs::remove_all(g_dir, ec);
  fs::create_directory(g_dir);
}
// ------------------------------------------------ files
struct Entry { char kind; string data; bool holes = false; }; // 'f' or 'd'
using Dir = std::map<string, Entry>;
static strs const names{"a", "d", "d/b", "d/e/c"};
static string parent(string const &n) { auto p = n.rfind('/'); return p == string::npos ? "" : n.substr(0, p); }
static bool is(Dir const &m, string const &n, char k) { if (n.empty()) return k == 'd'; auto i = m.find(n); return i != m.end() && i->second.kind == k; }
static bool parents_ok(Dir const &m, string const &n) { auto p = parent(n); return p.empty() || is(m, p, 'd'); }
static bool empty_dir(Dir const &m, string const &n) { for (auto &e : m) if (e.first.rfind(n + "/", 0) == 0) return false; return true; }
static string const texts[] = {"", "x", string("line\n\0\xff\r\nend", 13), string(70000, 'q')};
static size_t const sizes[] = {0, 1, 4096, 20000, 3000000};
static string content_of(string const &s) { return s.size() < 30 ? s : to_string(s.size()) + " characters"; }
static void verify(seq::Ctx &x, Dir const &m, string const &where) {
  for (auto const &n : names) {
    string s = g_dir + "/" + n;
    fs::path p = s;
    auto it = m.find(n);
    bool there = it != m.end();
    x.check("exists", where + ": file_exists of " + n, cp::file_exists(s) == there && cp::file_exists(p) == there && cp::file_exists(fs::path(s)) == there);
    struct stat st = cp::stat(p);
    if (!there) {
      x.check("stat", where + ": stat of the missing " + n, st.st_nlink == 0 && st.st_mode == 0 && st.st_size == 0 && st.st_blocks == 0);
      x.check("sparse", where + ": the missing " + n + " is sparse", !cp::is_sparse_file(p));
      continue;
    }
    struct stat real{};
    ::stat(s.c_str(), &real);
    x.check("stat", where + ": stat of " + n, st.st_ino == real.st_ino && st.st_mode == real.st_mode && st.st_size == real.st_size && st.st_nlink == real.st_nlink);
    x.check("kind", where + ": " + n + " is of another kind", it->second.kind == 'd' ? S_ISDIR(real.st_mode) : S_ISREG(real.st_mode));
    if (it->second.kind == 'd') continue;
    string const &want = it->second.data;
    x.check("size", where + ": size of " + n + " is " + to_string(real.st_size) + ", not " + to_string(want.size()), (size_t) real.st_size == want.size());
    bool sparse = cp::is_sparse_file(p);
    struct stat again{};
    ::stat(s.c_str(), &again); // the system may allocate the blocks meanwhile
    if (again.st_blocks == real.st_blocks) x.check("sparse", where + ": is_sparse_file of " + n, sparse == ((int64_t) real.st_blocks * 512 < (int64_t) real.st_size));
    auto in = io::open_file(p);
    string got = io::read_file_content(in);
    x.check("content", where + ": content of " + n + ": " + content_of(got) + " instead of " + content_of(want), got == want);
    io::close_file(in);
    x.check("close", where + ": " + n + " is still open", !in.is_open());
  }
  // and nothing else is there
  std::set<string> found;
  for (auto const &e : fs::recursive_directory_iterator(g_dir)) found.insert(e.path().string().substr(g_dir.size() + 1));
  std::set<string> want;
  for (auto const &e : m) want.insert(e.first);
  string h;
  for (auto &s : found) h += s + " ";
  x.check("entries", where + ": the directory holds " + h, found == want);
  x.state(seq::fnv(h + where.substr(where.size() / 2)));
}
static unsigned const OPS = 4 * 12;
static string step(seq::Ctx &x, Dir &m, unsigned op, string const &before) {
  string n = names[op % 4], s = g_dir + "/" + n;
  fs::path p = s;
  unsigned k = op / 4;
  bool can = parents_ok(m, n) && !is(m, n, 'd');
  auto boolean = [&](string const &what, bool want, bool got) { x.check("result", before + what + " returned " + (got ? "true" : "false"), want == got); return what; };
  switch (k) {
    case 0: case 1: case 2: case 3: {
      auto o = k == 3 ? io::create_file(p) : io::open_file_for_write(p);
      bool ok = (bool) o;
      o << texts[k == 3 ? 2 : k == 2 ? 3 : k];
      io::close_file(o);
      if (can) m[n] = {'f', texts[k == 3 ? 2 : k == 2 ? 3 : k]};
      return boolean("write " + to_string(k) + " " + n, can, ok);
    }
    case 4: {
      auto o = io::open_file_for_write(p, std::ios::app | std::ios::binary);
      o << "more";
      io::close_file(std::move(o));
      if (can) { m[n].kind = 'f'; m[n].data += "more"; m[n].holes = false; }
      return "append to " + n;
    }
    case 5: {
      bool there = m.count(n), want = !there && can;
      bool got = cp::ensure_file(p);
      if (want) m[n] = {'f', ""};
      return boolean("ensure_file " + n, want, got);
    }
    case 6: {
      bool got = false, threw = false;
      try { got = cp::ensure_directory(p); } catch (fs::filesystem_error const &) { threw = true; }
      bool blocked = is(m, n, 'f');
      strs made;
      for (string q = n; !q.empty(); q = parent(q)) { if (is(m, q, 'f')) { blocked = true; break; } if (!is(m, q, 'd')) made.push_back(q); }
      if (blocked) { x.check("result", before + "ensure_directory " + n + " says it made a directory", !got); return "ensure_directory " + n; }
      x.check("result", before + "ensure_directory " + n + " threw", !threw);
      for (auto &q : made) m[q] = {'d', ""};
      return boolean("ensure_directory " + n, !made.empty(), got);
    }
    case 7: {
      bool want = parents_ok(m, n) && m.count(n) && (is(m, n, 'f') || empty_dir(m, n));
      bool got = op & 1 ? io::delete_file(p) : io::delete_file(s.c_str());
      if (want) m.erase(n);
      return boolean("delete_file " + n, want, got);
    }
    default: {
      size_t z = sizes[k - 8 + (op % 4 == 2)];
      bool got = io::create_sparse_file(p, z);
      if (can) m[n] = {'f', string(z, '\0'), true};
      return boolean("create_sparse_file " + n + " of " + to_string(z), can, got);
    }
  }
}
// ------------------------------------------------ paths
static strs const pieces{"a", "bb.txt", ".cc", "d.e.f", "..", ".", "g.", "x y"};
static string glue(strs const &v, bool abs) { string s = abs ? "/" : ""; for (size_t i = 0; i < v.size(); i++) s += (i ? "/" : "") + v[i]; return s; }
static string ext_of(string const &f) { if (f == "." || f == "..") return ""; auto p = f.rfind('.'); return p == string::npos || p == 0 ? "" : f.substr(p); }
static void paths(seq::Ctx &x, strs const &v, bool abs) {
  string s = glue(v, abs), dir = glue(strs(v.begin(), v.end() - 1), abs), last = v.back(), e = ext_of(last);
  fs::path p = s;
  x.step(); x.interesting(); x.state(seq::fnv(s));
  x.eq("dirname", s, dir, cp::dirname(p).string());
  x.eq("basename", s, last, cp::basename(p).string());
  x.eq("extname", s, e, cp::extname(p).string());
  x.eq("basename_without_ext", s, last.substr(0, last.size() - e.size()), cp::basename_without_ext(p).string());
  x.eq("to_filename", s, s, string(cp::to_filename(p)) + (cp::to_filename_h(p) == s ? "" : "?"));
  x.eq("unchanged", s, s, p.string());
  string first = (abs ? "/" : "") + v[0];
  switch (v.size()) {
    case 1: { x.eq("join", s, s, cp::join(first).string()); break; }
    case 2: {
      x.eq("join", s, s, cp::join(first, v[1]).string());
      x.eq("join", s, s, cp::join(first.c_str(), v[1].c_str()).string());
      x.eq("merge", s, s, cp::merge(first, v[1]).string());
      fs::path q = first;
      auto &r = cp::join(q, v[1]);
      x.check("join", s + ": joined to another path", &r == &q);
      x.eq("join", s, s, q.string());
      x.eq("join dirname", s, s, cp::join(cp::dirname(p).string(), cp::basename(p)).string());
      break;
    }
    case 3: {
      x.eq("join", s, s, cp::join(first, v[1], v[2]).string());
      x.eq("join", s, s, cp::join(first, v[1].c_str(), fs::path(v[2])).string());
      fs::path q = first;
      x.eq("join", s, s, cp::join(q, v[1], v[2]).string());
      x.eq("merge", s, s, cp::merge(dir, v[2]).string());
      break;
    }
    default: {
      x.eq("join", s, s, cp::join(first, v[1], v[2], v[3]).string());
      fs::path q = first;
      x.eq("join", s, s, cp::join(q, v[1], v[2], v[3]).string());
      x.eq("join", s, s, q.string());
    }
  }
}
int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  char root[] = "/tmp/verif.d15.XXXXXX";
  if (!mkdtemp(root)) return 2;
  g_root = fs::canonical(root).string();
  vector<seq::Space> sp;
  unsigned len = T ? 4 : 3;
  uint64_t n = 1;
  for (unsigned k = 0; k < len; k++) n *= OPS;
  for (int prep = 0; prep < 3; prep++) { // on an empty directory, with subdirectories, with a file in the place of a directory
    if (prep && T) n = OPS * OPS * OPS; else if (prep) n = OPS * OPS;
    unsigned ln = prep ? len - 1 : len;
    auto text = [=](uint64_t i) { return "files " + to_string(prep) + " #" + to_string(i); };
    sp.push_back({"files-" + to_string(prep), n, [=](uint64_t i, seq::Ctx &x) {
                    scratch();
                    Dir m;
                    if (prep == 1) { fs::create_directories(g_dir + "/d/e"); m["d"] = {'d', ""}; m["d/e"] = {'d', ""}; }
                    if (prep == 2) { std::ofstream(g_dir + "/d") << "file"; m["d"] = {'f', "file"}; }
                    seq::Digits d(i);
                    string where;
                    for (unsigned k = 0; k < ln; k++) {
                      where += step(x, m, (unsigned) d.take(OPS), where) + ", ";
                      x.step();
                      if (k + 1 == ln || true) verify(x, m, where);
                    }
                    x.interesting();
                    x.outcome(to_string(m.size()));
                  }, text});
  }
  // reading a stream that was read before, in every way
  sp.push_back({"read", 4 * 6 * 6 * 4, [=](uint64_t i, seq::Ctx &x) {
                  scratch();
                  seq::Digits d(i);
                  string t = texts[d.take(4)];
                  string where = "read #" + to_string(i);
                  { auto o = io::create_file(g_dir + "/r"); o << t; io::close_file(o); }
                  auto f = io::open_file(g_dir + "/r");
                  for (int k = 0; k < 2; k++) {
                    switch (d.take(6)) {
                      case 1: f.get(); break;
                      case 2: { string l; std::getline(f, l); break; }
                      case 3: f.seekg(0, std::ios::end); break;
                      case 4: { std::stringstream b; b << f.rdbuf(); break; }
                      case 5: if (!t.empty()) f.seekg((long) t.size() / 2); break;
                    }
                    string got = io::read_file_content(f);
                    x.step();
                    x.check("content", where + ": " + content_of(got) + " instead of " + content_of(t), got == t);
                  }
                  switch (d.take(4)) { case 0: io::close_file(f); break; case 1: io::close_file(std::move(f)); break; default: { std::fstream b(g_dir + "/r"); i & 1 ? io::close_file(b) : io::close_file(std::move(b)); x.check("close", where, !b.is_open()); f.close(); } }
                  x.check("close", where + ": still open", !f.is_open());
                  x.interesting();
                  x.state(i);
                }, [](uint64_t i) { return "read #" + to_string(i); }});
  for (unsigned k = 1; k <= (T ? 5u : 4u); k++) {
    uint64_t c = 2;
    for (unsigned j = 0; j < k; j++) c *= pieces.size();
    auto at = [=](uint64_t i) { seq::Digits d(i); bool abs = d.take(2); strs v; for (unsigned j = 0; j < k; j++) v.push_back(pieces[d.take(pieces.size())]); return std::make_pair(v, abs); };
    sp.push_back({"paths-" + to_string(k), c, [=](uint64_t i, seq::Ctx &x) { auto q = at(i); paths(x, q.first, q.second); }, [=](uint64_t i) { auto q = at(i); return glue(q.first, q.second); }});
  }
  // names of temporary files: of every sequence of calls no two are equal, all are in the directory for temporary files, none exists
  sp.push_back({"temporary", T ? 4096 * 4 : 4096, [=](uint64_t i, seq::Ctx &x) {
                  scratch();
                  setenv("TMPDIR", g_dir.c_str(), 1);
                  seq::Digits d(i);
                  std::set<string> all;
                  string where = "temporary #" + to_string(i);
                  for (int k = 0; k < (T ? 7 : 6); k++) {
                    auto kind = d.take(4);
                    fs::path p = kind == 0 ? cp::tmpname_for_stderr() : kind == 1 ? cp::tmpname_autoincr() : kind == 2 ? cp::tmpname_autoincr("pre_%d_post") : cp::tmpname_autoincr("sub/pre_%04d");
                    x.step();
                    x.check("temporary", where + ": " + p.string() + " again", all.insert(p.string()).second);
                    x.check("temporary", where + ": " + p.string() + " is elsewhere", p.string().rfind(g_dir + "/", 0) == 0);
                    x.check("temporary", where + ": " + p.string() + " is already there", !fs::exists(p));
                    std::ofstream o(p);
                    x.check("temporary", where + ": " + p.string() + " cannot be written", (bool) o);
                    string f = p.filename().string();
                    if (kind >= 2) x.check("temporary", where + ": " + f + " is not made from the template", f.rfind("pre_", 0) == 0 && (kind == 3 || f.substr(f.size() - 5) == "_post"));
                  }
                  auto t0 = cp::tmpname(), t1 = cp::tmpname("named/file");
                  x.check("temporary", where + ": tmpname", t0.parent_path() == g_dir && t1 == fs::path(g_dir) / "named/file" && fs::is_directory(t1.parent_path()) && cp::tmpdir() == g_dir);
                  x.check("directory", where, cp::get_cwd() == fs::current_path() && cp::get_pwd() == fs::current_path() && cp::get_current_directory() == fs::current_path());
                  char b[4096];
                  auto l = readlink("/proc/self/exe", b, sizeof b);
                  fs::path exe = string(b, (size_t) std::max<ssize_t>(l, 0));
                  x.check("executable", where, cp::get_executable_path() == exe && cp::get_executable_dir() == exe.parent_path() && cp::executable_name() == exe.filename() && cp::executable_name_as_path() == exe.filename());
                  x.check("process_id", where, cp::process_id() == to_string(getpid()));
                  x.interesting();
                  x.state(i);
                }, [](uint64_t i) { return "temporary #" + to_string(i); }});
  int rc = seq::run(argc, argv, "D15", sp, "all histories of the file helpers on four names (written, appended, sparse, ensured, deleted; as file, directory, below a missing directory or a file) against a model of the directory; all composed paths; all sequences of temporary names");
  std::error_code ec;
  fs::remove_all(g_root, ec);
  return rc;
}
