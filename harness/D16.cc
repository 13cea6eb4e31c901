// D16 diagnostics: printing of containers and tuples, the log line, exceptions and their traces, names of types, hashes
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr11.hh>
#include <deque>
#include <list>
#include <set>
using std::string; using std::to_string; using std::vector;

static string printable(string const &s) { string o; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char) c; } return o; }
static unsigned count(string const &s, string const &what) { unsigned n = 0; for (size_t p = 0; (p = s.find(what, p)) != string::npos; p += what.size()) n++; return n; }
static string plain(string const &s) { // without escape sequences
  string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !isalpha((unsigned char) s[i])) i++; } else o += s[i];
  return o;
}
// what is written to a descriptor, or to the stream for it, meanwhile
struct FdBuf : std::streambuf {
  int fd;
  explicit FdBuf(int f) : fd(f) {}
  int overflow(int c) override { char b = (char) c; return write(fd, &b, 1) == 1 ? c : EOF; }
  std::streamsize xsputn(char const *p, std::streamsize n) override { return write(fd, p, (size_t) n); }
};
static string caught(int fd, std::function<void()> const &f) {
  static int mem = memfd_create("d16", 0);
  std::cout.flush(); fflush(stdout); fflush(stderr);
  if (ftruncate(mem, 0)) abort();
  lseek(mem, 0, SEEK_SET);
  int keep = dup(fd);
  dup2(mem, fd);
  FdBuf buf(fd);
  auto &os = fd == 2 ? std::cerr : std::cout;
  auto old = os.rdbuf(&buf);
  f();
  os.rdbuf(old);
  fflush(stdout); fflush(stderr);
  dup2(keep, fd); close(keep);
  string o((size_t) lseek(mem, 0, SEEK_END), 0);
  if (pread(mem, o.data(), o.size(), 0) != (ssize_t) o.size()) abort();
  return o;
}
struct Cout { // what goes to std::cout meanwhile
  std::ostringstream os; std::streambuf *old = std::cout.rdbuf(os.rdbuf());
  ~Cout() { std::cout.rdbuf(old); }
};

// ---- containers and tuples
template<class T> string text(T const &v) { std::ostringstream o; o << v; return o.str(); }
template<class C> static void container(seq::Ctx &x, string const &d, C const &c) {
  string want = "[";
  bool first = true;
  for (auto const &v : c) { want += (first ? "" : ",") + text(v); first = false; }
  want += "]";
  Cout o;
  std::ostringstream os;
  os << "<" << c << ">";
  x.step(); x.outcome(want);
  x.eq("container", d + " printed to a stream", "<" + want + ">", os.str());
  x.eq("container.fn", d + " as a text", want, ::detail::vector_to_string(c));
  x.eq("container.cout", d + " printed to another stream: std::cout", string(), o.os.str());
}
template<class... T> static void tuple_(seq::Ctx &x, T const &...v) {
  string want = "(";
  size_t n = 0;
  ((want += (n++ ? ", " : "") + text(v)), ...);
  want += ")";
  auto t = std::make_tuple(v...);
  x.state(want);
  Cout o;
  std::ostringstream os, os2;
  os << "<" << t << "|" << t << ">";
  x.step(); x.interesting(); x.outcome(want);
  x.eq("tuple", "a tuple printed twice to a stream", "<" + want + "|" + want + ">", os.str());
  x.eq("tuple.cout", "a tuple printed to another stream: std::cout", string(), o.os.str());
  auto &r = ::detail::print_tuple(os2, t);
  x.check("tuple.chain", "printing a tuple yields the stream", &r == &os2 && os2.str() == want);
  std::cout << t;
  x.eq("tuple.to.cout", "a tuple printed to std::cout", want, o.os.str());
}
template<unsigned N, class... T> static void tuples(seq::Ctx &x, seq::Digits &d, T const &...v) {
  if constexpr (N == 0) tuple_(x, v...);
  else
    switch (d.take(3)) { // the types; the values are taken from the rest
    case 0: return tuples<N - 1>(x, d, v..., d.take(2) ? -7 : 0);
    case 1: return tuples<N - 1>(x, d, v..., string(d.take(2) ? "te,xt" : ""));
    default: return tuples<N - 1>(x, d, v..., d.take(2) ? 'c' : ' ');
    }
}

// ---- stack traces
static string dump(vector<string> const &st) {
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  cmdr::debug::print_stacktrace(st, f);
  fclose(f);
  string r(p, n);
  free(p);
  return r;
}
static void lines_(seq::Ctx &x, vector<string> const &in, vector<string> const &want) { // want: "" if it is not determined
  auto st = in;
  string one = dump(st);
  x.step(); x.state(one);
  string d;
  for (auto &s : in) d += "'" + printable(s) + "' ";
  for (size_t i = 0; i < in.size(); i++) x.check("trace.modified", "printing the trace " + d + "changed its line " + to_string(i) + " to '" + printable(st[i]) + "'", st[i] == in[i]);
  x.eq("trace.again", "the trace " + d + "printed again", printable(one), printable(dump(st)));
  vector<string> got;
  size_t p = 0;
  for (size_t e; (e = one.find('\n', p)) != string::npos; p = e + 1) got.push_back(one.substr(p, e - p));
  x.eq("trace.lines", "the trace " + d + "printed: lines", in.size() + 1, got.size());
  if (got.size() != in.size() + 1) return;
  x.eq("trace.head", "the first line", string("stack trace:"), got[0]);
  for (size_t i = 0; i < in.size(); i++)
    if (!want[i].empty()) x.eq("trace.line", "the line '" + printable(in[i]) + "' printed", printable(want[i]), printable(got[i + 1]));
}
static string expected(string const &s) { // of a line made of the letters ( + ) blank k, "" if the parts are not obvious
  if (s.find('+') == string::npos) return "  " + s; // no offset, nothing to take apart
  auto o = s.find('('), p = s.find('+'), c = s.find(')');
  bool simple = count(s, "(") == 1 && count(s, "+") == 1 && count(s, ")") == 1 && o < p && p < c;
  if (!simple || s[p + 1] == ' ') return "";
  return "  " + s.substr(0, o) + " : " + s.substr(o + 1, p - o - 1) + "()+" + s.substr(p + 1, c - p - 1);
}

template<int N> __attribute__((noinline)) static void deep(int depth, int skip, unsigned &printed, unsigned &saved) {
  if (depth > 0) { deep<N>(depth - 1, skip, printed, saved); asm volatile("" ::: "memory"); return; }
  char *p = nullptr; size_t n = 0;
  FILE *f = open_memstream(&p, &n);
  cmdr::debug::print_stacktrace<N>(f, skip);
  fclose(f);
  string r(p, n);
  free(p);
  printed = r.rfind("stack trace:\n", 0) == 0 ? count(r, "\n") - 1 : 9999;
  saved = (unsigned) cmdr::debug::save_stacktrace<N>(skip).size();
  asm volatile("" ::: "memory");
}

// ---- exceptions
using namespace cmdr::exception;
struct Thrown { string what, file; int line; std::exception_ptr p; };
static Thrown raise_(int kind, string const &t) {
  Thrown r;
  r.file = __FILE__;
  try {
    switch (kind) {
    case 0: r.line = __LINE__; cmdr_throw_line(t);
    case 1: r.line = __LINE__; cmdr_throw_as(cmdr_exception, t);
    case 2: r.line = __LINE__; cmdr_throw_as(cmdr_biz_error, t);
    case 3: r.line = __LINE__; cmdr_throw_as(required_flag_missed, t);
    default: r.line = __LINE__; cmdr_throw_as(dup_error, t);
    }
  } catch (...) { r.p = std::current_exception(); }
  return r;
}
static void exceptions(seq::Ctx &x, int kind, string const &t) {
  x.step(); x.interesting();
  auto e = raise_(kind, t);
  string cstr = t.c_str(); // what() ends at a zero byte
  string want = t + "  " + e.file + ":" + to_string(e.line);
  want = want.c_str();
  string d = "an exception of kind " + to_string(kind) + " with the text '" + printable(t) + "': ";
  int caught_as = 0;
  auto again = [&](auto tag) {
    using E = typename decltype(tag)::type;
    try { std::rethrow_exception(e.p); } catch (E const &v) { caught_as++; x.eq("what", d + "what()", printable(want), printable(v.what())); } catch (...) {}
  };
  again(cmdr::traits::tag<std::exception>{}); again(cmdr::traits::tag<std::runtime_error>{}); again(cmdr::traits::tag<cmdr_exception>{});
  again(cmdr::traits::tag<cmdr_biz_error>{}); again(cmdr::traits::tag<required_flag_missed>{}); again(cmdr::traits::tag<dup_error>{});
  static const int AS[] = {3, 3, 4, 5, 5};
  x.eq("caught", d + "handlers of its bases that catch it", AS[kind], caught_as);
  try { std::rethrow_exception(e.p); } catch (cmdr_exception const &v) {
    auto before = v.stacktrace();
    x.check("trace.empty", d + "has a stack trace", !before.empty());
    cmdr_exception copy(v);
    string first = dump(v.stacktrace()), second = dump(copy.stacktrace());
    x.check("trace.kept", d + "its trace is the same after it was printed", before == v.stacktrace() && before == copy.stacktrace());
    x.eq("trace.printed", d + "trace of the copy", first, second);
    x.eq("copy", d + "what() of the copy", printable(want), printable(copy.what()));
    cmdr_exception other("other.cc", 1, "other");
    other = v;
    x.eq("assigned", d + "what() after the assignment", printable(want), printable(other.what()));
    x.check("assigned.trace", d + "trace after the assignment", other.stacktrace() == before);
    cmdr_exception moved(std::move(copy));
    x.eq("moved", d + "what() of the moved one", printable(want), printable(moved.what()));
  }
}
static void nest(vector<int> const &kinds, size_t i) {
  string t = "level" + to_string(i) + "!";
  auto thrown = [&] {
    switch (kinds[i]) {
    case 0: std::throw_with_nested(cmdr_exception("file.cc", 10 + (int) i, t));
    case 1: std::throw_with_nested(std::runtime_error(t));
    default: std::throw_with_nested(dup_error("file.cc", 10 + (int) i, t));
    }
  };
  if (i + 1 == kinds.size()) {
    switch (kinds[i]) { // the innermost one has nothing inside
    case 0: throw cmdr_exception("file.cc", 10 + (int) i, t);
    case 1: throw std::runtime_error(t);
    default: throw dup_error("file.cc", 10 + (int) i, t);
    }
  }
  try { nest(kinds, i + 1); } catch (...) { thrown(); }
}
static void nested(seq::Ctx &x, vector<int> const &kinds, bool stack, int line) {
  x.step(); x.interesting();
  string d = "nested exceptions ";
  for (int k : kinds) d += to_string(k);
  Cout o;
  string err = caught(2, [&] {
    try { nest(kinds, 0); } catch (std::exception const &e) {
      if (stack) cmdr::debug::dump_stacktrace("here.cc", line, e);
      else cmdr::debug::dump_stacktrace("here.cc", line, e, false);
    }
  });
  size_t pos = 0;
  for (size_t i = 0; i < kinds.size(); i++) {
    string t = "level" + to_string(i) + "!" + (kinds[i] == 1 ? "" : "  file.cc:" + to_string(10 + i)) + (line > 0 ? "  here.cc:" + to_string(line) : "") + "\n";
    bool wanted = stack || i == 0;
    unsigned n = count(err, "level" + to_string(i) + "!");
    x.eq("nested.times", d + ": reports of the exception " + to_string(i), wanted ? 1u : 0u, n);
    if (!wanted || n != 1) continue;
    auto p = err.find(t);
    x.check("nested.text", d + ": the report of the exception " + to_string(i) + " is complete", p != string::npos);
    if (p == string::npos) continue;
    x.check("nested.order", d + ": the exceptions are reported from the outermost to the innermost", p >= pos);
    pos = p;
  }
  x.eq("nested.captured", d + ": reports of the place where it was caught", 1u, count(err, "[CAPTURED] : here.cc:" + to_string(line) + "\n"));
  x.eq("nested.trace", d + ": traces", stack ? true : false, count(err, "stack trace:\n") > 0);
  x.eq("nested.cout", d + ": std::cout", string(), o.os.str());
}

// ---- log line
struct Fn { string file, func; int line; };
static void logline(seq::Ctx &x, string const &msg, std::function<void(Fn &)> const &f, time_t = 0) {
  Fn at;
  x.step(); x.outcome(to_string(msg.size()));
  time_t a = time(nullptr);
  string got = plain(caught(1, [&] { f(at); }));
  time_t b = time(nullptr);
  string d = "the line of a message of " + to_string(msg.size()) + " characters '" + printable(msg.substr(0, 40)) + "'";
  bool stamp = false;
  for (time_t t = a; t <= b; t++) { char buf[40]; strftime(buf, sizeof buf, "%D %T", gmtime(&t)); stamp = stamp || got.rfind(buf, 0) == 0; }
  x.check("log.time", d + " starts with the time: " + printable(got.substr(0, 30)), stamp);
  x.check("log.end", d + " ends with a line feed", !got.empty() && got.back() == '\n' && count(got, "\n") == 1 + count(msg, "\n"));
  auto p = got.find("[debug]:");
  x.check("log.tag", d + " has its tag", p != string::npos);
  if (p == string::npos) return;
  p = got.find(msg, p + 8);
  x.check("log.message", d + " has the whole message", p != string::npos);
  if (p == string::npos) return;
  auto q = got.find(" " + at.file + ":" + to_string(at.line) + " ", p + msg.size());
  x.check("log.place", d + " has the place after the message: " + printable(got.substr(p + msg.size())), q != string::npos);
  if (q == string::npos) return;
  x.check("log.function", d + " has the function after the place: " + printable(got.substr(q)), got.find(at.func, q) != string::npos);
}
#define HERE(...) [&](Fn &at) { at = {__FILE__, __PRETTY_FUNCTION__, __LINE__}; cmdr_print(__VA_ARGS__); }

// ---- names
struct Plain {};
struct structural {}; class Klass {};
union Uni { int i; };
enum Colour { red }; enum class Kind { a };
namespace outer { struct S {}; namespace inner { class class_of {}; struct T { struct U {}; }; enum class E { x }; } }
template<class T> static void name(seq::Ctx &x, string const &full, string const &last) {
  x.step(); x.interesting(); x.outcome(full);
  x.eq("type_name", "the name of " + full, full, string(cmdr::debug::type_name<T>()));
  constexpr auto c = cmdr::debug::type_name<T>();
  x.eq("type_name.const", "the name of " + full + " at compile time", full, string(c));
  x.eq("short_type_name", "the short name of " + full, last, string(cmdr::debug::short_type_name<T>()));
  if constexpr (!std::is_void_v<T> && !std::is_reference_v<T>) x.eq("demangle", "the demangled name of " + full, full, cmdr::debug::demangle(typeid(T).name()));
  if constexpr (std::is_default_constructible_v<T>) { T t{}; x.eq("type", "the name of the type of a value of " + full, full, cmdr::debug::type(t)); }
}
static constexpr std::string_view JV[] = {"", "a", "bc", "d e "};
template<int I> struct Jx { static constexpr std::string_view v = JV[I]; };
template<int A, int B, int C> static void join3(seq::Ctx &x) {
  x.step();
  string d = "joined " + to_string(A) + to_string(B) + to_string(C);
  x.eq("join", d, string(JV[A]) + string(JV[B]) + string(JV[C]), string(cmdr::join_v<Jx<A>::v, Jx<B>::v, Jx<C>::v>));
  x.check("join.terminated", d + " ends with a zero", cmdr::join_v<Jx<A>::v, Jx<B>::v, Jx<C>::v>.data()[cmdr::join_v<Jx<A>::v, Jx<B>::v, Jx<C>::v>.size()] == 0);
}
template<int... N> static void join_all(seq::Ctx &x, std::integer_sequence<int, N...>) { (join3<N / 16, N / 4 % 4, N % 4>(x), ...); }

// ---- hashes
using V = std::variant<int, string, char>;
static size_t combine(size_t seed, size_t h) { return seed ^ (0x9e3779b9 + (seed << 6) + (seed >> 2) + h); }
template<unsigned N, class... T> static void hashes(seq::Ctx &x, seq::Digits &d, size_t seed, T const &...v) {
  if constexpr (N == 0) {
    x.step();
    size_t want = seed, got = seed;
    ((want = combine(want, std::hash<T>{}(v))), ...);
    std::hash_combine(got, v...);
    x.eq("hash", "the combined hash of " + to_string(sizeof...(T)) + " values from " + to_string(seed), want, got);
    size_t steps = seed;
    (std::hash_combine(steps, v), ...);
    x.eq("hash.steps", "the combined hash, value by value, from " + to_string(seed), want, steps);
  } else
    switch (d.take(3)) {
    case 0: return hashes<N - 1>(x, d, seed, v..., d.take(2) ? -1 : 0);
    case 1: return hashes<N - 1>(x, d, seed, v..., string(d.take(2) ? "abc" : ""));
    default: return hashes<N - 1>(x, d, seed, v..., d.take(2) ? 2.5 : -1.);
    }
}
template<class T> static void log2_(seq::Ctx &x, T v) {
  if (v < 1) return;
  x.step();
  unsigned fl = 0;
  while ((v >> fl) > 1) fl++;
  unsigned ce = fl + ((T(1) << fl) < v ? 1u : 0u);
  x.eq("log2", "log2(" + to_string(v) + ")", (uint64_t) fl, (uint64_t) cmdr::cross::constexpr_log2(v));
  x.eq("log2.ceil", "log2_ceil(" + to_string(v) + ")", (uint64_t) ce, (uint64_t) cmdr::cross::constexpr_log2_ceil(v));
}

template<class T> static void variant(seq::Ctx &x, T const &v, string const &want) {
  x.step();
  x.eq("variant", "a variant with " + cmdr::debug::type(v), printable(want), printable(cmdr::variant_to_string(cmdr::support_types(v))));
}
template<class T> static string bits(T v) { std::ostringstream o; if constexpr (sizeof(T) == 1 && !std::is_same_v<T, bool>) o << (char) v; else o << v; return o.str(); }
template<class T> static void numbers(seq::Ctx &x) {
  for (T v : {T(0), T(1), T(65), T(100), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()}) variant(x, v, bits(v));
}

int main(int argc, char **argv) {
  bool T = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  auto word = [](uint64_t i, string const &al, unsigned L) { string s; for (int d : seq::word_at(i, al.size(), 0, L)) s += al[(size_t) d]; return s; };
  {
    unsigned L = T ? 7 : 5;
    sp.push_back({"containers", seq::words_count(6, 0, L), [=](uint64_t i, seq::Ctx &x) {
      static const int N[] = {0, -1, 12, 2147483647, -2147483647 - 1, 7};
      static const char *S[] = {"", "a", ",", "]", "two words", "\xc3\xa9"};
      static const double D[] = {0, 0.5, -2.25, 1e10, 1e-7, 3};
      auto w = seq::word_at(i, 6, 0, L);
      vector<int> v; std::list<string> l; std::deque<double> q; std::set<int> s; vector<char> c; vector<string> vs; vector<bool> vb; std::list<unsigned long long> ll;
      for (int k : w) { v.push_back(N[k]); l.emplace_back(S[k]); q.push_back(D[k]); s.insert(N[k]); c.push_back("abcd,["[k]); vs.emplace_back(S[k]); ll.push_back((unsigned long long) N[k]); }
      string d = "elements " + to_string(w.size());
      x.interesting();
      container(x, "a vector of numbers, " + d, v); container(x, "a list of texts, " + d, l); container(x, "a deque, " + d, q); container(x, "a set, " + d, s);
      container(x, "a vector of characters, " + d, c); container(x, "a vector of texts, " + d, vs); container(x, "a list of numbers, " + d, ll);
    }, [=](uint64_t i) { string s; for (int k : seq::word_at(i, 6, 0, L)) s += to_string(k); return "elements " + s; }});
  }
  sp.push_back({"tuples", 4 * 1296, [=](uint64_t i, seq::Ctx &x) {
    seq::Digits d(i);
    switch (d.take(4)) { case 0: return tuples<1>(x, d); case 1: return tuples<2>(x, d); case 2: return tuples<3>(x, d); default: return tuples<4>(x, d); }
  }, [](uint64_t i) { return "tuple " + to_string(i); }});
  {
    unsigned L = T ? 9 : 7;
    string al = "(+) k"; // k: no name that stands for a type
    sp.push_back({"lines", seq::words_count(5, 0, L), [=](uint64_t i, seq::Ctx &x) {
      string s = word(i, al, L);
      string pad(24, 'm');
      if (s.size() == L) x.interesting();
      lines_(x, {s}, {expected(s)});
      lines_(x, {pad + s, "second (kk+0x1) [0x2]", pad + " " + s}, {expected(pad + s), "  second  : kk()+0x1", expected(pad + " " + s)});
      lines_(x, {s + pad + " "}, {""});
    }, [=](uint64_t i) { return "line '" + word(i, al, L) + "'"; }});
  }
  {
    vector<string> mod{"./app", "/usr/lib/x86_64-linux-gnu/libc.so.6", "/a b/c"};
    vector<std::pair<string, string>> fn{{"main", "main()"}, {"", "()"}, {"_ZN4cmdr3appD1Ev", "cmdr::app::~app()"}, {"_Z3fooi", "foo(int)"}, {"_ZN3foo3barESt6vectorIiSaIiEE", "foo::bar(std::vector<int, std::allocator<int> >)"}, {"_Z", "_Z()"},
                                         {"_Z3fooSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EES_IS7_SaIS7_EES_IS9_SaIS9_EE", "*"}};
    vector<string> off{"0x1", "0x15c", "0xffffffff"};
    vector<string> rest{" [0x8048a6d]", " [0x7f0000000000]", ""};
    uint64_t n = mod.size() * fn.size() * off.size() * rest.size();
    sp.push_back({"frames", n * fn.size(), [=](uint64_t i, seq::Ctx &x) {
      seq::Digits d(i);
      auto m = mod[d.take(mod.size())]; auto &f = fn[d.take(fn.size())]; auto o = off[d.take(off.size())]; auto r = rest[d.take(rest.size())];
      auto &g = fn[d.take(fn.size())];
      x.interesting();
      auto shown = [](std::pair<string, string> const &f) { return f.second == "*" ? cmdr::debug::demangle(f.first.c_str()) : f.second; };
      lines_(x, {m + "(" + f.first + "+" + o + ")" + r, m + "(" + g.first + "+0x7) [0x1]", "garbage", m + "(" + f.first + "+0x9) [0x1]"},
             {"  " + m + " : " + shown(f) + "+" + o, "  " + m + " : " + shown(g) + "+0x7", "  garbage", "  " + m + " : " + shown(f) + "+0x9"});
    }, [](uint64_t i) { return "frames " + to_string(i); }});
  }
  sp.push_back({"depths", (T ? 130u : 80u) * 6, [](uint64_t i, seq::Ctx &x) {
    seq::Digits d(i);
    int skip = (int) d.take(6), depth = (int) d.take(1000);
    // how many frames there are below depends on the compiler: the depth 0 is the measure
    auto one = [&](auto N) {
      constexpr int max = decltype(N)::value;
      unsigned p = 0, s = 0, p0 = 0, s0 = 0;
      deep<max>(0, 0, p0, s0);
      deep<max>(depth, skip, p, s);
      string w = "at depth " + to_string(depth) + ", at most " + to_string(max) + " frames, without " + to_string(skip);
      auto want = [&](unsigned at0) { return std::max(0, std::min((int) at0 + depth, max) - skip); };
      x.step(); x.outcome(to_string(want(p0)));
      x.check("depth.some", w + ": frames", p0 > 0 && s0 > 0 && p0 <= max && s0 <= max);
      x.eq("depth.printed", w + ": printed frames", want(p0), (int) p);
      x.eq("depth.saved", w + ": saved frames", want(s0), (int) s);
    };
    x.interesting();
    one(std::integral_constant<int, 63>{}); one(std::integral_constant<int, 1>{}); one(std::integral_constant<int, 3>{}); one(std::integral_constant<int, 30>{});
  }, [](uint64_t i) { return "depth " + to_string(i / 6) + " skip " + to_string(i % 6); }});
  {
    vector<string> texts{"%s%n%d", string("a\0b", 3), string(300, 'x'), string(70000, 'y'), "line\nfeed", "\xc3\xa9", "\x1b[0m"};
    string al = "a %:";
    unsigned L = T ? 5 : 4;
    uint64_t n = seq::words_count(al.size(), 0, L);
    sp.push_back({"exceptions", (n + texts.size()) * 5, [=](uint64_t i, seq::Ctx &x) { uint64_t t = i / 5; exceptions(x, (int) (i % 5), t < n ? word(t, al, L) : texts[t - n]); },
                  [](uint64_t i) { return "kind " + to_string(i % 5) + " text " + to_string(i / 5); }});
  }
  {
    unsigned L = T ? 6 : 4;
    sp.push_back({"nested", seq::words_count(3, 1, L) * 4, [=](uint64_t i, seq::Ctx &x) { nested(x, seq::word_at(i / 4, 3, 1, L), i & 1, i & 2 ? 77 : 0); },
                  [=](uint64_t i) { string s; for (int k : seq::word_at(i / 4, 3, 1, L)) s += to_string(k); return "nested " + s + (i & 1 ? " with traces" : ""); }});
  }
  {
    string const NUL;
    sp.push_back({"log", T ? 20000u : 5000u, [](uint64_t i, seq::Ctx &x) {
      string m; for (uint64_t k = 0; k < i; k++) m += char('a' + k % 26);
      x.interesting();
      logline(x, m, HERE("%s", m.c_str()));
      if (i < 300) {
        logline(x, to_string(i) + " of " + m, HERE("%lu of %s", (unsigned long) i, m.c_str()));
        logline(x, m + "%|-7|0.50|c", HERE("%s%%|%d|%.2f|%c", m.c_str(), -7, 0.5, 'c'));
        logline(x, m + "\nsecond", HERE("%s\nsecond", m.c_str()));
      }
      if (!i) logline(x, "no arguments", HERE("no arguments"));
    }, [](uint64_t i) { return "message of " + to_string(i) + " characters"; }});
  }
  sp.push_back({"print_if_false", 2 * 32, [](uint64_t i, seq::Ctx &x) {
    bool v = i & 1;
    string m(i / 2, 'm');
    x.step();
    for (int form = 0; form < 2; form++) {
      bool r = !v;
      string err = caught(2, [&] { r = form ? print_if_false(v, m) : print_if_false(v, m.c_str()); });
      x.eq("print_if_false", "the result", v, r);
      x.eq("print_if_false.text", "the text for " + to_string(v), v ? string() : m + "\n", err);
    }
  }, [](uint64_t i) { return "assertion " + to_string(i); }});
  sp.push_back({"names", 2, [](uint64_t i, seq::Ctx &x) {
    if (i) return join_all(x, std::make_integer_sequence<int, 64>{});
    name<void>(x, "void", "void"); name<int>(x, "int", "int"); name<bool>(x, "bool", "bool"); name<char>(x, "char", "char"); name<double>(x, "double", "double");
    name<unsigned char>(x, "unsigned char", "unsigned char"); name<float>(x, "float", "float");
    name<Plain>(x, "Plain", "Plain"); name<structural>(x, "structural", "structural"); name<Klass>(x, "Klass", "Klass"); name<Uni>(x, "Uni", "Uni"); name<Colour>(x, "Colour", "Colour"); name<Kind>(x, "Kind", "Kind");
    name<outer::S>(x, "outer::S", "S"); name<outer::inner::class_of>(x, "outer::inner::class_of", "class_of"); name<outer::inner::T>(x, "outer::inner::T", "T");
    name<outer::inner::T::U>(x, "outer::inner::T::U", "U"); name<outer::inner::E>(x, "outer::inner::E", "E");
    for (string s : {"", "x", "plain", "_Z", "_Zxx", "not a mangled name"}) if (s != "x") x.eq("demangle.not", "a name that is not mangled", s, cmdr::debug::demangle(s.c_str()));
    x.eq("name.constref", "the name of a reference", string("const int&"), string(cmdr::debug::type_name<int const &>()));
  }, [](uint64_t i) { return "names " + to_string(i); }});
  sp.push_back({"hashes", 5 * 3 * 216, [](uint64_t i, seq::Ctx &x) {
    static const size_t SEED[] = {0, 1, 0x9e3779b9, ~size_t(0), size_t(1) << 63};
    seq::Digits d(i);
    size_t s = SEED[d.take(5)];
    x.interesting();
    switch (d.take(3)) { case 0: return hashes<1>(x, d, s); case 1: return hashes<2>(x, d, s); default: return hashes<3>(x, d, s); }
  }, [](uint64_t i) { return "hash " + to_string(i); }});
  sp.push_back({"log2", 256 + 64, [T](uint64_t i, seq::Ctx &x) {
    x.interesting();
    if (i < 256) { for (unsigned k = 0; k < (T ? 65536u : 4096u); k++) { unsigned v = unsigned(i) * (T ? 65536u : 4096u) + k; log2_<unsigned>(x, v); if (v < 32768) log2_<int>(x, (int) v); } return; }
    for (int dl = -3; dl <= 3; dl++) {
      uint64_t v = (uint64_t(1) << (i - 256)) + (uint64_t) dl;
      if (v) log2_<uint64_t>(x, v);
    }
  }, [](uint64_t i) { return "block " + to_string(i); }});
  sp.push_back({"max", 7 * 7 * 7 * 7, [](uint64_t i, seq::Ctx &x) {
    static const int N[] = {-2147483647 - 1, -5, 0, 1, 2, 100, 2147483647};
    seq::Digits d(i);
    int a = N[d.take(7)], b = N[d.take(7)], c = N[d.take(7)], e = N[d.take(7)];
    x.step();
    string w = to_string(a) + " " + to_string(b) + " " + to_string(c) + " " + to_string(e);
    namespace k = cmdr::cross;
    x.eq("max", "the maximum of " + w, std::max({a, b, c, e}), k::constexpr_max(a, b, c, e));
    x.eq("max3", "the maximum of the first three of " + w, std::max({a, b, c}), k::constexpr_max(a, b, c));
    x.eq("max2", "the maximum of the first two of " + w, std::max(a, b), k::max(a, b));
    x.eq("min2", "the minimum of the first two of " + w, std::min(a, b), k::min(a, b));
  }, [](uint64_t i) { return "numbers " + to_string(i); }});
  sp.push_back({"environment", 3 * 3 * 3, [](uint64_t i, seq::Ctx &x) {
    static const char *V_[] = {nullptr, "", "value"};
    seq::Digits d(i);
    auto before = V_[d.take(3)]; auto set = V_[1 + d.take(2)]; int over = (int) d.take(3);
    x.step();
    if (before) ::setenv("D16_ENV", before, 1); else unsetenv("D16_ENV");
    if (over == 2) cmdr::cross::setenv("D16_ENV", set); else cmdr::cross::setenv("D16_ENV", set, over);
    auto now = getenv("D16_ENV");
    x.eq("setenv", string("the variable after ") + (before ? before : "nothing") + ", set to '" + set + "' with " + to_string(over), string(before && !over ? before : set), string(now ? now : "(none)"));
    unsetenv("D16_ENV");
    if (i) return;
    for (time_t t : {(time_t) 0, (time_t) 951782400, (time_t) 1709164800, (time_t) 4102444799}) {
      struct tm w{}; gmtime_r(&t, &w);
      auto g = cmdr::cross::gmtime(&t);
      x.check("gmtime", "the fields of " + to_string(t), g->tm_year == w.tm_year && g->tm_yday == w.tm_yday && g->tm_hour == w.tm_hour && g->tm_sec == w.tm_sec && g->tm_wday == w.tm_wday);
    }
    time_t a = time(nullptr), n = cmdr::cross::time(), m = 0, r = cmdr::cross::time(&m), b = time(nullptr);
    x.check("time", "the time", a <= n && n <= r && r == m && r <= b);
    struct tm c = *cmdr::cross::gmtime();
    time_t cur = timegm(&c);
    x.check("gmtime.now", "the fields of now", b <= cur && cur <= time(nullptr));
  }, [](uint64_t i) { return "environment " + to_string(i); }});
  sp.push_back({"variants", 1, [](uint64_t, seq::Ctx &x) {
    x.interesting();
    numbers<bool>(x); numbers<char>(x); numbers<int>(x); numbers<unsigned>(x); numbers<int8_t>(x); numbers<int16_t>(x); numbers<uint8_t>(x); numbers<uint16_t>(x);
    numbers<long>(x); numbers<long long>(x); numbers<unsigned long>(x); numbers<unsigned long long>(x);
    for (double v : {0.0, 0.5, -2.25, 1e10, 3.0}) { variant(x, v, text(v)); variant(x, (float) v, text((float) v)); }
    for (string s : {"", "a", "two words", "q\"q", "b\\s"}) { std::ostringstream o; o << std::quoted(s); variant(x, s, o.str()); }
    using namespace std::chrono;
    for (int n : {1, 59, 61, 3601, 90061}) {
      auto dur = [&](auto v) { std::ostringstream o; cmdr::chrono::format_duration(o, v); variant(x, v, o.str()); };
      dur(nanoseconds(n)); dur(microseconds(n)); dur(milliseconds(n)); dur(seconds(n)); dur(minutes(n)); dur(hours(n));
    }
  }, [](uint64_t) { return string("values"); }});
  return seq::run(argc, argv, "D16", sp, "printing of containers, tuples, traces, exceptions and log lines; names, hashes and small functions");
}
