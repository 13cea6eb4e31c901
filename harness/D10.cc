// D10 the fixed-capacity string: all operation sequences up to a depth around the capacity, for several capacities and character types
// KIND: seq
#include "seq.hh"
#include <cmdr11/cmdr_small_string.hh>
#include <sstream>
using namespace std;
namespace cs = cmdr::string;
template<size_t N, class T> using SS = cs::small_string_preallocated<N, T>;

template<class T> basic_string<T> text(size_t n, int variant) { // variant 0: letters, 1: other letters, 2: null characters inside
  basic_string<T> s;
  for (size_t i = 0; i < n; i++) s += variant == 2 && i % 2 == 0 ? T(0) : T((variant == 1 ? 'A' : 'a') + char(i % 26));
  return s;
}
template<class T> string show(basic_string<T> const &s) { string r; for (auto c: s) { if (c == 0) r += "\\0"; else r += char(c); } return r.size() > 60 ? r.substr(0, 60) + "...(" + to_string(s.size()) + ")" : r; }

// literals of 0..7 characters
template<class T, class F> void literal(int n, int variant, F f) {
  auto t = text<T>(7, variant);
#define LIT(K) case K: { T a[K + 1]; for (int i = 0; i < K; i++) a[i] = t[size_t(i)]; a[K] = 0; T const(&r)[K + 1] = a; f(r); break; }
  switch (n) { LIT(0) LIT(1) LIT(2) LIT(3) LIT(4) LIT(5) LIT(6) LIT(7) }
#undef LIT
}
enum { C_DEFAULT, C_LIT, C_STR, C_OTHER_SMALL, C_OTHER_BIG, C_OTHER_MOVE, NCTOR };
enum { O_ASSIGN_LIT, O_ASSIGN_STR, O_ASSIGN_SMALL, O_ASSIGN_BIG, O_ASSIGN_MOVE, O_ASSIGN_SAME, O_PUSH, O_ADD_LIT, O_ADD_STR, O_ADD_SS, O_ADD_SELF, O_PLUS_SS, O_PLUS_STR, O_PLUS_LIT, O_LIT_PLUS, NOP };
static const char *ON[] = {"=lit", "=string", "=smaller", "=bigger", "=move", "=same", "append", "+=lit", "+=string", "+=ss", "+=self", "ss+ss", "ss+string", "ss+lit", "lit+ss"};

template<size_t N, class T> struct Run {
  seq::Ctx &x;
  unique_ptr<SS<N, T>> s; // on the heap: the sanitizer watches the bytes around it
  basic_string<T> m;
  static constexpr size_t CAP = N - 1, SMALL = N > 2 ? N - 1 : 1, BIG = N + 3;
  void clip() { if (m.size() > CAP) m.resize(CAP); }
  void look(string const &d) {
    x.step();
    auto &v = *s;
    x.eq("size", d + ": size", m.size(), v.size());
    x.eq("capacity", d + ": capacity", CAP, v.capacity());
    if (v.size() > CAP) return;
    basic_string<T> got(v.c_str(), v.size());
    x.eq("content", d + ": content", show(m), show(got));
    x.check("terminated", d + ": the text is terminated", v.c_str()[v.size()] == T(0));
    x.eq("range", d + ": begin..end", show(m), show(basic_string<T>(v.begin(), v.end())));
    x.check("equal.string", d + ": equals the std::string with its content", v == m && m == v);
    basic_string<T> o = m + T('z');
    x.check("unequal.longer", d + ": differs from a longer std::string", !(v == o) && !(o == v));
    if (!m.empty()) {
      o = m; o.back() = T('?');
      x.check("unequal.last", d + ": differs from a std::string with another last character", !(v == o));
      o = m.substr(0, m.size() - 1);
      x.check("unequal.shorter", d + ": differs from a shorter std::string", !(v == o));
      o = m; o[0] = T('?');
      x.check("unequal.first", d + ": differs from a std::string with another first character", !(v == o));
    }
    SS<N, T> copy(v), other;
    x.check("equal.copy", d + ": equals its copy", v == copy && copy == v);
    other = v;
    x.check("equal.assigned", d + ": equals what it was assigned to", v == other);
    x.eq("copy.size", d + ": size of a copy", m.size(), copy.size());
    if (CAP > 0) { if (m.size() < CAP) copy.append(T('z')); else { basic_string<T> y = m; y.back() = T('?'); copy = y; } x.check("unequal.copy", d + ": differs from a changed copy", !(v == copy) && !(copy == v)); }
    if constexpr (is_same_v<T, char>) {
      x.eq("to_string", d + ": to_string", show(m), show(v.to_string()));
      ostringstream os; os << v;
      x.eq("printed", d + ": printed", show(m), show(os.str()));
      SS<BIG, T> big(v);
      x.check("equal.bigger", d + ": equals a string of bigger capacity with its content", v == big && big == v);
    }
  }
  void construct(int kind, int n, int var) {
    auto t = text<T>(size_t(n), var);
    m = t; clip();
    switch (kind) {
    case C_DEFAULT: s.reset(new SS<N, T>()); m.clear(); break;
    case C_LIT: literal<T>(n, var, [&](auto &a) { s.reset(new SS<N, T>(a)); }); break;
    case C_STR: s.reset(new SS<N, T>(t)); break;
    default: {
      if (kind == C_OTHER_SMALL) { SS<SMALL, T> o(t); m = t.substr(0, SMALL - 1); clip(); s.reset(new SS<N, T>(o)); }
      else if (kind == C_OTHER_BIG) { SS<BIG, T> o(t); m = t.substr(0, BIG - 1); clip(); s.reset(new SS<N, T>(o)); }
      else { SS<BIG, T> o(t); m = t.substr(0, BIG - 1); clip(); s.reset(new SS<N, T>(move(o))); }
    }
    }
    look("constructed");
  }
  void op(int kind, int n, int var) {
    auto t = text<T>(size_t(n), var);
    auto &v = *s;
    switch (kind) {
    case O_ASSIGN_LIT: literal<T>(n, var, [&](auto &a) { v = a; }); m = t; break;
    case O_ASSIGN_STR: v = t; m = t; break;
    case O_ASSIGN_SMALL: { SS<SMALL, T> o(t); v = o; m = t.substr(0, SMALL - 1); } break;
    case O_ASSIGN_BIG: { SS<BIG, T> o(t); v = o; m = t.substr(0, BIG - 1); } break;
    case O_ASSIGN_MOVE: { SS<BIG, T> o(t); v = move(o); m = t.substr(0, BIG - 1); } break;
    case O_ASSIGN_SAME: { SS<N, T> o(t); v = o; m = t; auto &self = v; v = self; break; }
    case O_PUSH: v.append(T('p')); m += T('p'); break;
    case O_ADD_LIT: literal<T>(n, var, [&](auto &a) { v += a; }); m += t; break;
    case O_ADD_STR: v += t; m += t; break;
    case O_ADD_SS: { SS<BIG, T> o(t); v += o; m += t.substr(0, BIG - 1); break; }
    case O_ADD_SELF: v += v; m += m; break;
    case O_PLUS_SS: { SS<BIG, T> o(t); auto r = v + o; *s = r; m += t.substr(0, BIG - 1); break; }
    case O_PLUS_STR: { auto r = v + t; *s = r; m += t; break; }
    case O_PLUS_LIT: literal<T>(n, var, [&](auto &a) { auto r = v + a; *s = r; }); m += t; break;
    default: literal<T>(n, var, [&](auto &a) { auto r = a + v; *s = r; }); m = t + m; break;
    }
    clip();
    look(ON[kind]);
  }
};
// one step of a sequence: kind, length 0..7, variant
static bool is_lit(int k) { return k == O_ASSIGN_LIT || k == O_ADD_LIT || k == O_PLUS_LIT || k == O_LIT_PLUS; }
struct Step { int kind, n, var; };
static vector<Step> steps(vector<int> const &lens) {
  vector<Step> r;
  for (int k = 0; k < NOP; k++)
    for (int n: lens)
      for (int v = 0; v < 3; v++) {
        if ((k == O_PUSH || k == O_ADD_SELF) && (n != lens[0] || v)) continue;
        if (is_lit(k) && v == 2) continue; // literals with null characters are not texts
        r.push_back({k, n, v});
      }
  return r;
}
template<size_t N, class T> void space(vector<seq::Space> &sp, string name, vector<int> lens, unsigned depth) {
  auto st = make_shared<vector<Step>>(steps(lens));
  uint64_t const nc = NCTOR * lens.size() * 3;
  uint64_t total = nc;
  for (unsigned k = 0; k < depth; k++) total *= st->size();
  sp.push_back({name, total, [=](uint64_t i, seq::Ctx &x) {
    x.state(i); x.interesting();
    Run<N, T> r{x};
    auto c = i % nc; i /= nc;
    int v = int(c / NCTOR / lens.size());
    if (c % NCTOR == C_LIT && v == 2) v = 1;
    r.construct(int(c % NCTOR), lens[c / NCTOR % lens.size()], v);
    for (unsigned k = 0; k < depth; k++, i /= st->size()) { auto &s = (*st)[i % st->size()]; r.op(s.kind, s.n, s.var); }
    x.outcome(show(r.m));
  }, [=](uint64_t i) {
    auto c = i % nc; i /= nc;
    string s = "constructor " + to_string(c % NCTOR) + " with " + to_string(lens[c / NCTOR % lens.size()]) + " characters";
    for (unsigned k = 0; k < depth; k++, i /= st->size()) { auto &t = (*st)[i % st->size()]; s += string(", ") + ON[t.kind] + " " + to_string(t.n) + "/" + to_string(t.var); }
    return s;
  }});
}
template<size_t N, class T> void big(vector<seq::Space> &sp, string name) { // lengths around a large capacity, std::string only
  static const int D[] = {-2, -1, 0, 1, 2, 130};
  sp.push_back({name, 6 * 6 * 8, [](uint64_t i, seq::Ctx &x) {
    x.state(i); x.interesting();
    Run<N, T> r{x};
    int n1 = max(0, int(N) - 1 + D[i % 6]), n2 = int(i / 6 % 6) == 5 ? 1 : max(0, int(N) - 1 + D[i / 6 % 6]);
    static const int K[] = {O_ASSIGN_STR, O_ASSIGN_SMALL, O_ASSIGN_BIG, O_ASSIGN_SAME, O_ADD_STR, O_ADD_SS, O_PLUS_STR, O_PUSH};
    r.construct(C_STR, n1, 0);
    r.op(K[i / 36], n2, 1);
    r.op(O_PUSH, 0, 0);
    r.op(O_ASSIGN_STR, n1 / 2, 1);
  }, [](uint64_t i) { return "code " + to_string(i); }});
}
int main(int argc, char **argv) {
  bool th = seq::is_thorough(argc, argv);
  vector<seq::Space> sp;
  vector<int> const few{0, 1, 2, 3, 4, 5, 6, 7}, mid{0, 2, 4, 7};
  space<1, char>(sp, "char1", few, 1); space<2, char>(sp, "char2", few, 1); space<3, char>(sp, "char3", few, 1);
  space<4, char>(sp, "char4", few, 1); space<5, char>(sp, "char5", few, 1); space<8, char>(sp, "char8", few, 1);
  space<5, wchar_t>(sp, "wchar5", few, 1); space<4, char16_t>(sp, "char16_4", few, 1);
  space<5, char>(sp, "char5.2", mid, 2);
  if (th) { space<3, char>(sp, "char3.2", mid, 2); space<7, char>(sp, "char7.2", mid, 2); space<5, wchar_t>(sp, "wchar5.2", mid, 2); space<4, char>(sp, "char4.2", few, 2); space<5, char>(sp, "char5.2f", few, 2); space<5, char>(sp, "char5.3", {0, 3, 6}, 3); }
  big<16, char>(sp, "char16"); big<127, char>(sp, "char127"); big<128, char>(sp, "char128"); big<129, char>(sp, "char129"); big<130, char>(sp, "char130");
  big<255, char>(sp, "char255"); big<256, char>(sp, "char256"); big<257, char>(sp, "char257"); big<300, char>(sp, "char300"); big<1000, char>(sp, "char1000"); big<300, wchar_t>(sp, "wchar300");
  return seq::run(argc, argv, "D10", sp, "every constructor and operation with texts of every length around the capacity, all sequences up to a depth, eleven large capacities, three character types; content, size, termination, comparison, printing and the surrounding memory are checked after every operation");
}
